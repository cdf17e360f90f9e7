------------------------------ MODULE Temporal -----------------------------
(* Dates, times, UTC offsets, date-times and timestamps (RFC 6350 section   *)
(* 4.3) with their truncated forms.  A value is a calendar record rendered   *)
(* as text of fixed shape, so that equality of values is equality of texts:  *)
(*   date  YYYYMMDD   time  hhmmss+hhmm   date-time  YYYYMMDDThhmmss+hhmm    *)
(* Results are [st, v]; st is "any" for the lax ISO 8601 forms about which   *)
(* the specification says nothing.                                           *)
EXTENDS Chars

Ok(v) == [st |-> "ok", v |-> v]
Err == [st |-> "err", v |-> <<>>]
Lax == [st |-> "any", v |-> <<>>]

Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
DaysIn(y, m) ==
  IF m \in {1, 3, 5, 7, 8, 10, 12} THEN 31
  ELSE IF m # 2 THEN 30 ELSE IF Leap(y) THEN 29 ELSE 28
ValidDate(y, m, d) == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)

DateText(y, m, d) == Digits(y, 4) \o Digits(m, 2) \o Digits(d, 2)
MkDate(y, m, d) == IF ValidDate(y, m, d) THEN Ok(DateText(y, m, d)) ELSE Err

(* Shape of a text: digits become "9", everything else stays. *)
Shape(s) == TLCEval([i \in 1..Len(s) |-> IF IsDigit(s[i]) THEN 57 ELSE s[i]])
N2(s, i) == (s[i] - 48) * 10 + (s[i + 1] - 48)
N4(s, i) == N2(s, i) * 100 + N2(s, i + 2)

Sh8 == S("99999999")       Sh10 == S("9999-99-99")   Sh7 == S("9999-99")
Sh4 == S("9999")           ShMD == S("--9999")       ShM == S("--99")
ShD == S("---99")

(* Characters that occur in no supported or lax form of a date or a time. *)
DateChars == (48..57) \cup {PLUS, DASH, 87}
TimeChars == (48..57) \cup {PLUS, DASH, DOT, COLON, COMMA, 90, 84, 87}
OnlyFrom(s, C) == \A i \in DOMAIN s : s[i] \in C

(* Week dates, ordinal dates and years with a sign are dates, though not of  *)
(* a vCard: left open.                                                       *)
OtherIso(s, sh) ==
  /\ s # <<>> /\ OnlyFrom(s, DateChars)
  /\ \/ sh \in {S("9999999"), S("9999-999")} \/ s[1] = PLUS
     \/ sh = S("-999999")   \* a year of the century, as in ISO 8601:1988
     \/ \E i \in DOMAIN s : s[i] = 87

(* A date standing alone.  Absent parts default to year 0, month 1, day 1.  *)
Date(s) ==
  LET sh == Shape(s) IN
  CASE sh = Sh8  -> MkDate(N4(s, 1), N2(s, 5), N2(s, 7))
    [] sh = Sh10 -> MkDate(N4(s, 1), N2(s, 6), N2(s, 9))
    [] sh = Sh7  -> MkDate(N4(s, 1), N2(s, 6), 1)
    [] sh = Sh4  -> MkDate(N4(s, 1), 1, 1)
    [] sh = ShMD -> MkDate(0, N2(s, 3), N2(s, 5))
    [] sh = ShM  -> MkDate(0, N2(s, 3), 1)
    [] sh = ShD  -> MkDate(0, 1, N2(s, 4))
    [] OTHER     -> IF OtherIso(s, sh) THEN Lax ELSE Err

(* UTC offset: Z, or sign and hours with optional minutes. *)
OffText(sign, h, m) == <<IF h = 0 /\ m = 0 THEN PLUS ELSE sign>> \o Digits(h, 2) \o Digits(m, 2)
Utc == OffText(PLUS, 0, 0)
MkOffset(sign, h, m) ==
  IF h <= 23 /\ m <= 59 THEN Ok(OffText(sign, h, m)) ELSE Err
Offset(s) ==
  IF s = S("Z") THEN Ok(Utc)
  ELSE IF s = <<>> \/ s[1] \notin {PLUS, DASH} THEN Err
  ELSE LET sh == Shape(Tail(s)) IN
    CASE sh = S("99")   -> MkOffset(s[1], N2(s, 2), 0)
      [] sh = S("9999") -> MkOffset(s[1], N2(s, 2), N2(s, 4))
      [] OTHER -> Err

(* Time of day: hh, hhmm, hhmmss, -mm, -mmss, --ss. *)
MkTime(h, m, s) ==
  IF h <= 23 /\ m <= 59 /\ s <= 59 THEN Ok(Digits(h, 2) \o Digits(m, 2) \o Digits(s, 2))
  ELSE IF h >= 25 \/ m >= 60 \/ s >= 61 THEN Err ELSE Lax
(* Beyond doubt no time in any notation. *)
LeadingDashes(s) == IF StartsWith(s, <<DASH, DASH>>) THEN 2 ELSE IF StartsWith(s, <<DASH>>) THEN 1 ELSE 0
NoTime(s) ==
  LET lead == LeadingDashes(s) IN
  \/ s = <<>>
  \/ ~OnlyFrom(s, TimeChars)
  \/ AllDigits(s)
  \/ lead # 0 /\ (Len(s) = lead \/ ~IsDigit(s[lead + 1]))
  \/ s[Len(s)] = 90
LocalTime(s) ==
  LET sh == Shape(s) IN
  CASE sh = S("99")     -> MkTime(N2(s, 1), 0, 0)
    [] sh = S("9999")   -> MkTime(N2(s, 1), N2(s, 3), 0)
    [] sh = S("999999") -> MkTime(N2(s, 1), N2(s, 3), N2(s, 5))
    [] sh = S("-99")    -> MkTime(0, N2(s, 2), 0)
    [] sh = S("-9999")  -> MkTime(0, N2(s, 2), N2(s, 4))
    [] sh = S("--99")   -> MkTime(0, 0, N2(s, 3))
    [] OTHER -> IF NoTime(s) THEN Err ELSE Lax

(* Where the zone of a time begins: the first sign after the leading dashes *)
(* of a truncated time, or a final Z; Len+1 when there is none.              *)
ZoneAt(s) ==
  LET lead == LeadingDashes(s)
      at == FindIn(s, lead + 1, {PLUS, DASH})
  IN IF at # 0 THEN at
     ELSE IF s # <<>> /\ s[Len(s)] = 90 THEN Len(s) ELSE Len(s) + 1
Time(s) ==
  LET z == ZoneAt(s)
      t == LocalTime(SubSeq(s, 1, z - 1))
      o == IF z > Len(s) THEN Ok(Utc) ELSE Offset(From(s, z))
      \* a date and time is not a time, nor is a day
      other == (\E i \in 2..Len(s) : s[i] = 84) \/ StartsWith(s, S("---"))
      st == IF ~OnlyFrom(s, TimeChars) \/ other THEN "err" ELSE Worst(t.st, o.st)
      \* what a malformed mixture such as 10Z+01 means is left open
      mixed == \E i \in 1..(z - 1) : s[i] \in {84, 87, COLON, DOT, COMMA}
  IN IF st = "err" /\ mixed /\ ~other /\ OnlyFrom(s, TimeChars) THEN Lax
     ELSE [st |-> st, v |-> IF st = "ok" THEN t.v \o o.v ELSE <<>>]

(* Date-time: a date, "T", a time. *)
ChT == 84
FullTime(s) == Shape(SubSeq(s, 1, ZoneAt(s) - 1)) \in {S("99"), S("9999"), S("999999")}
FullDate(s) == Shape(s) \in {Sh8, Sh10, ShMD, ShD}
DateTime(s) ==
  LET t == FindC(s, 1, ChT) IN
  IF t = 0 THEN Err
  ELSE LET dt == SubSeq(s, 1, t - 1)
           tm == From(s, t + 1)
           d == Date(dt)
           c == Time(tm)
           st == Worst(d.st, c.st)
       IN IF st = "ok" /\ ~(FullDate(dt) /\ FullTime(tm)) THEN Lax
          ELSE [st |-> st, v |-> IF st = "ok" THEN d.v \o <<ChT>> \o c.v ELSE <<>>]

(* Timestamp: complete date, T, complete time, optional zone. *)
ShTs == S("99999999") \o <<ChT>> \o S("999999")
Timestamp(s) ==
  IF s # <<>> /\ s[1] \in {PLUS, DASH} THEN Lax
  ELSE IF Len(s) < 15 \/ Shape(SubSeq(s, 1, 15)) # ShTs THEN Err
  ELSE LET d == Date(SubSeq(s, 1, 8))
           t == LocalTime(SubSeq(s, 10, 15))
           z == From(s, 16)
           o == IF z = <<>> THEN Ok(Utc) ELSE Offset(z)
           st == WorstOf(<<d.st, t.st, o.st>>)
       IN [st |-> st, v |-> IF st = "ok" THEN d.v \o <<ChT>> \o t.v \o o.v ELSE <<>>]

(* Date, date-time or time; the kind of the result is its first character. *)
Tagged(tag, r) == [r EXCEPT !.v = IF r.st = "ok" THEN <<tag>> \o @ ELSE <<>>]
TagD == 68   TagX == 88   TagT == 84     \* D date, X date-time, T time
DateAndOrTime(s) ==
  IF s # <<>> /\ s[1] = ChT
  THEN IF Len(s) > 1 /\ s[2] = ChT THEN Err ELSE Tagged(TagT, Time(Tail(s)))
  ELSE LET x == DateTime(s) d == Date(s) t == Time(s) IN
       IF x.st = "ok" THEN Tagged(TagX, x)
       ELSE IF d.st = "ok" THEN Tagged(TagD, d)
       ELSE IF x.st = "err" /\ d.st = "err" /\ t.st = "err" THEN Err
       ELSE IF Shape(s) \in {Sh8, Sh10, ShMD, ShD} /\ t.st # "ok" THEN Err
       ELSE Lax

(* Comma separated lists of any of these. *)
ListOf(s, Item(_)) ==
  LET parts == SplitC(s, COMMA)
      rs == TLCEval([k \in DOMAIN parts |-> Item(parts[k])])
      st == WorstOf([k \in DOMAIN rs |-> rs[k].st])
  IN [st |-> st, v |-> IF st = "ok" THEN TLCEval([k \in DOMAIN rs |-> rs[k].v]) ELSE <<>>]
=============================================================================
