---------------------------- MODULE MC_Temporal ----------------------------
(* Dates, times, offsets and their combinations, read (C13) and written (C14).*)
(* SET (environment) chooses the family:                                      *)
(*   tokens   every text of at most N tokens                                  *)
(*   digits   every text of at most N digits and dashes                       *)
(*   marks    every text of at most N digits and marks                        *)
(*   days     every month and day of years around the leap rules              *)
(*   years    the end of February of every year                               *)
(*   clock    times around every limit, in every zone form                    *)
(*   seconds  every second of a day and the ones that are none                *)
(*   zones    every offset                                                    *)
EXTENDS Model

Set1 == IOEnv.SET
Writes == IOEnv.EMIT = "encode"
Tokens == TLCEval(
  IF Set1 = "digits" THEN {S("1"), S("0"), S("-")}
  ELSE IF Set1 = "marks" THEN {S("1"), S("-"), S("+"), S("T"), S("Z"), S(":"), S("W")}
  ELSE IF N <= 3
  THEN {S("00"), S("01"), S("02"), S("12"), S("13"), S("23"), S("24"), S("29"), S("30"), S("31"), S("32"), S("59"), S("60"), S("20"),
        S("3"), S("-"), S("+"), S("T"), S("Z"), S(":"), S(","), S("."), S("W"), S("t"), S("x")}
  ELSE {S("00"), S("02"), S("12"), S("29"), S("30"), S("59"), S("-"), S("+"), S("T"), S("Z"), S(",")})

VARIABLES txt_, n_
Init == CASE Set1 \in {"tokens", "digits", "marks"} -> txt_ = <<>> /\ n_ = 0
          [] Set1 = "days"   -> txt_ \in {Digits(y, 4) : y \in {0, 4, 100, 400, 1600, 1899, 1900, 1904, 1970, 1999, 2000, 2001, 2096, 2100, 9999}} /\ n_ = 0
          [] Set1 = "years"  -> txt_ \in {Digits(y, 4) : y \in 0..9999} /\ n_ = 0
          [] Set1 = "clock"  -> txt_ \in {Digits(h, 2) : h \in 0..25} /\ n_ = 0
          [] Set1 = "seconds" -> txt_ \in {Digits(h, 2) : h \in 0..24} /\ n_ = 0
          [] Set1 = "zones"  -> txt_ \in {<<c>> \o Digits(h, 2) : c \in {PLUS, DASH}, h \in 0..25} /\ n_ = 0
Next == CASE Set1 \in {"tokens", "digits", "marks"} -> n_ < N /\ \E t \in Tokens : txt_' = txt_ \o t /\ n_' = n_ + 1
          [] Set1 = "days"   -> n_ < 2 /\ n_' = n_ + 1 /\ \E k \in (IF n_ = 0 THEN 0..13 ELSE 0..32) : txt_' = txt_ \o Digits(k, 2)
          [] Set1 = "years"  -> n_ = 0 /\ n_' = 2 /\ \E k \in {S("0228"), S("0229"), S("0301")} : txt_' = txt_ \o k
          [] Set1 = "clock"  -> n_ < 2 /\ n_' = n_ + 1 /\ \E k \in {0, 1, 9, 10, 29, 30, 58, 59, 60, 61, 99} : txt_' = txt_ \o Digits(k, 2)
          [] Set1 = "seconds" -> n_ < 2 /\ n_' = n_ + 1 /\ \E k \in 0..60 : txt_' = txt_ \o Digits(k, 2)
          [] Set1 = "zones"  -> n_ = 0 /\ n_' = 1 /\ \E k \in 0..61 : txt_' = txt_ \o Digits(k, 2)

(***************************************************************************)
(* Theorems: what is read has one canonical form, which reads as itself.      *)
(***************************************************************************)
Reads(P(_), r) == r.st = "ok" => P(r.v) = r
DatesAreCanonical == Reads(Date, Date(txt_))
OffsetsAreCanonical == Reads(Offset, Offset(txt_))
TimesAreCanonical == Reads(Time, Time(txt_))
DateTimesAreCanonical == Reads(DateTime, DateTime(txt_))
StampsAreCanonical == Reads(Timestamp, Timestamp(txt_))
Untagged(v) == IF v[1] = TagT THEN v ELSE Tail(v)
AllAreCanonical == LET r == DateAndOrTime(txt_) IN r.st = "ok" => DateAndOrTime(Untagged(r.v)) = r
(* The kinds do not overlap: nothing is a date and a date-time.               *)
KindsAreDisjoint == Cardinality({k \in 1..2 : (CASE k = 1 -> Date(txt_) [] k = 2 -> DateTime(txt_)).st = "ok"}) <= 1
StampsAreDateTimes == Timestamp(txt_).st = "ok" => DateTime(txt_) \in {Timestamp(txt_), Lax}
(* Every digit that was written is in what was read. *)
DigitsAreKept == (Shape(txt_) = Sh8 /\ Date(txt_).st = "ok") => Date(txt_).v = txt_
(* The calendar: 146097 days in 400 years, 365 or 366 in each.                *)
DaysOf(y) == Cardinality({md \in (0..13) \X (0..32) : ValidDate(y, md[1], md[2])})
ASSUME Set1 # "years" \/ FoldLeft(LAMBDA a, y : a + DaysOf(y), 0, [k \in 1..400 |-> 1999 + k]) = 146097
ASSUME Set1 # "years" \/ (DaysOf(1900) = 365 /\ DaysOf(2000) = 366 /\ DaysOf(2004) = 366 /\ DaysOf(2001) = 365)

(***************************************************************************)
(* Cases: texts to read.                                                     *)
(***************************************************************************)
Zones == {<<>>, S("Z"), S("+0000"), S("-0000"), S("+14"), S("-0030"), S("+0530"), S("-2359"), S("+2400"), S("+0060"), S("z"), S("+1"), S("+12:30"), S("ZZ")}
Some == {<<>>, S("Z"), S("-0030")}
Fns(fs, s) == \A f \in fs : ValueCase(f, s)
ReadTokens ==
  /\ Fns({"parse_date", "parse_time", "parse_date_time", "parse_utc_offset", "DateAndOrTime"}, txt_)
  /\ Fns({"parse_timestamp"}, S("20000229T1230") \o txt_)
  /\ Fns({"parse_date_list"}, S("20000229,") \o txt_) /\ Fns({"parse_time_list"}, txt_ \o S(",12"))
  /\ Fns({"parse_date_and_or_time_list", "parse_date_time_list"}, S("20000229T12,") \o txt_)
  /\ Fns({"parse_time", "DateAndOrTime"}, <<ChT>> \o txt_)
  /\ LineCase(S("BDAY:") \o txt_, Strict) /\ LineCase(S("X-A;VALUE=timestamp:20000229T") \o txt_, Strict)
ReadDays ==
  LET m == SubSeq(txt_, 5, 6) d == SubSeq(txt_, 7, 8) y == SubSeq(txt_, 1, 4) IN
  n_ = 2 =>
    /\ Fns({"parse_date", "DateAndOrTime"}, txt_) /\ Fns({"parse_date"}, DashDate(txt_))
    /\ Fns({"parse_timestamp", "parse_date_time"}, txt_ \o S("T235959Z"))
    /\ Fns({"DateAndOrTime"}, txt_ \o S("T00-0100"))
    /\ Fns({"parse_date"}, y \o <<DASH>> \o m)
    /\ (y = S("2000") => /\ Fns({"parse_date", "DateAndOrTime"}, S("--") \o m \o d) /\ Fns({"parse_date_time", "DateAndOrTime"}, S("--") \o m \o d \o S("T12"))
                         /\ Fns({"parse_date"}, S("--") \o m) /\ Fns({"parse_date", "DateAndOrTime"}, S("---") \o d)
                         /\ Fns({"parse_date_time", "DateAndOrTime"}, S("---") \o d \o S("T1230Z"))
                         /\ LineCase(S("BDAY:--") \o m \o d, Strict) /\ LineCase(S("ANNIVERSARY:") \o txt_, Strict))
ReadYears ==
  IF n_ = 0 THEN Fns({"parse_date", "DateAndOrTime"}, txt_) /\ Fns({"parse_date"}, txt_ \o S("-06"))
  ELSE Fns({"parse_date"}, txt_) /\ LineCase(S("REV:") \o txt_ \o S("T000000Z"), Strict)
ReadClock ==
  \A z \in Zones :
    /\ Fns({"parse_time"}, txt_ \o z) /\ Fns({"DateAndOrTime"}, <<ChT>> \o txt_ \o z)
    /\ Fns({"parse_date_time", "DateAndOrTime"}, S("19991231T") \o txt_ \o z)
    /\ (n_ = 2 => Fns({"parse_timestamp"}, S("19991231T") \o txt_ \o z))
    /\ (n_ = 0 => Fns({"parse_time"}, S("-") \o txt_ \o z) /\ Fns({"parse_time", "DateAndOrTime"}, S("--") \o txt_ \o z))
    /\ (n_ = 1 => Fns({"parse_time"}, S("-") \o txt_ \o z) /\ Fns({"DateAndOrTime"}, S("T-") \o txt_ \o z))
ReadSeconds == IF n_ = 2 THEN Fns({"parse_time"}, txt_) ELSE Fns({"DateAndOrTime"}, <<ChT>> \o txt_)
ReadZones ==
  /\ Fns({"parse_utc_offset", "UtcOffsetProperty"}, txt_) /\ Fns({"parse_time"}, S("235959") \o txt_)
  /\ Fns({"parse_timestamp", "parse_date_time"}, S("00000101T000000") \o txt_)
  /\ LineCase(S("TZ;VALUE=utc-offset:") \o txt_, Strict) /\ LineCase(S("X-A;VALUE=utc-offset:") \o txt_, Strict)
  /\ LineCase(S("NOTE;TZ=") \o txt_ \o S(":v"), Strict) /\ LineCase(S("REV:99991231T235959") \o txt_, Strict)

(***************************************************************************)
(* Cases: values to write, in every place that holds one.                    *)
(***************************************************************************)
Fn == Bare("FN", "text", <<S("f")>>)
VT(p, vt) == [p EXCEPT !.p = <<[k |-> "VALUE", v |-> <<vt>>]>>]
XT(t, vt, x) == VT([Bare(Private, t, x) EXCEPT !.n = S("X-T")], vt)
D(v) == <<TagD>> \o v   DX(v) == <<TagX>> \o v   DT(v) == <<TagT>> \o v
WriteDate(v) ==
  /\ EncodeCase(<<Fn, Bare("BDAY", "dt", <<D(v)>>)>>)
  /\ EncodeCase(<<Fn, VT(Bare("ANNIVERSARY", "dt", <<D(v), DT(S("000000+0000")), D(v)>>), Vt.dt)>>)
  /\ EncodeCase(<<Fn, XT("date", Vt.date, <<v, S("20000229"), v>>)>>)
WriteTime(v) ==
  /\ EncodeCase(<<Fn, Bare("BDAY", "dt", <<DT(v)>>)>>)
  /\ EncodeCase(<<Fn, XT("time", Vt.time, <<v, S("235959-2359"), v>>), XT("dt", Vt.dt, <<DT(v), D(S("00000101"))>>)>>)
WriteStamp(v) ==
  /\ EncodeCase(<<Fn, Bare("BDAY", "dt", <<DX(v)>>), Bare("REV", "ts", <<v>>)>>)
  /\ EncodeCase(<<Fn, XT("date-time", Vt.dateTime, <<v, v>>), XT("timestamp", Vt.ts, <<v>>), XT("dt", Vt.dt, <<DX(v), DX(v)>>)>>)
WriteOffset(v) ==
  EncodeCase(<<Fn, VT(Bare("TZ", "offset", <<v>>), Vt.offset),
               [Bare("NOTE", "text", <<S("v")>>) EXCEPT !.p = <<[k |-> "TZ", v |-> <<S("offset"), v>>]>>],
               XT("offset", Vt.offset, <<v>>)>>)
WriteAll ==
  LET d == Date(txt_) t == Time(txt_) o == Offset(txt_) IN
  CASE Set1 \in {"days", "years"} -> (n_ = 2 /\ d.st = "ok") => WriteDate(d.v) /\ \A z \in {Utc, S("+0530"), S("-0001")} : WriteStamp(d.v \o S("T235900") \o z)
    [] Set1 \in {"clock", "seconds"} ->
         (n_ = 2 /\ t.st = "ok") => \A z \in {Utc, S("-0030"), S("+1400")} : WriteTime(SubSeq(txt_, 1, 6) \o z) /\ WriteStamp(S("00000101T") \o SubSeq(txt_, 1, 6) \o z)
    [] OTHER -> (n_ = 1 /\ o.st = "ok") => WriteOffset(o.v) /\ WriteTime(S("000000") \o o.v) /\ WriteStamp(S("20000229T120000") \o o.v)
Emit ==
  IF Writes THEN WriteAll
  ELSE CASE Set1 \in {"tokens", "digits", "marks"} -> ReadTokens [] Set1 = "days" -> ReadDays [] Set1 = "years" -> ReadYears
         [] Set1 = "clock" -> ReadClock [] Set1 = "seconds" -> ReadSeconds [] OTHER -> ReadZones
=============================================================================
