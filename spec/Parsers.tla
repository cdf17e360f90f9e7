------------------------------ MODULE Parsers ------------------------------
(* What the public parsers of single values make of a text, and how values   *)
(* are shown as text.                                                        *)
EXTENDS Builder

(* RFC 3339 texts, which JSON uses: the date with dashes, the time with       *)
(* colons and a zone.  Other notations of the standard are left open.         *)
RfcDate(s) ==
  IF Shape(s) = Sh10 THEN Date(s)
  ELSE IF s # <<>> /\ s[1] \in {PLUS, DASH} THEN Lax ELSE Err
RfcZone(z) ==
  IF z = S("Z") THEN Ok(Utc)
  ELSE IF Shape(z) \in {S("+99:99"), S("-99:99")} THEN MkOffset(z[1], N2(z, 2), N2(z, 5)) ELSE Err
RfcDateTime(s) ==
  IF Len(s) < 20 \/ Shape(SubSeq(s, 1, 10)) # Sh10 \/ Shape(SubSeq(s, 12, 19)) # S("99:99:99") THEN Err
  ELSE IF s[11] # ChT \/ s[20] \in {DOT, 122} THEN Lax
  ELSE LET d == Date(SubSeq(s, 1, 10))
           t == MkTime(N2(s, 12), N2(s, 15), N2(s, 18))
           o == RfcZone(From(s, 20))
           st == WorstOf(<<d.st, t.st, o.st>>)
       IN [st |-> st, v |-> IF st = "ok" THEN d.v \o <<ChT>> \o t.v \o o.v ELSE <<>>]

(* Words of a closed vocabulary, without regard to case. *)
Word(s, words) ==
  IF Lower(s) \in words THEN Ok(Lower(s))
  ELSE IF \E i \in DOMAIN s : s[i] \in {KELVIN, DOTTED_I} THEN Lax ELSE Err

(* Public value parsers: [st, v] with v a sequence of texts. *)
Single(x) == [st |-> x.st, v |-> IF x.st = "ok" THEN <<x.v>> ELSE <<>>]
OfValue(x) == [st |-> x.st, v |-> x.x]
ValueOf(fn, s) ==
  CASE fn \in {"parse_utc_offset", "UtcOffsetProperty"} -> Single(Offset(s))
    [] fn = "parse_time"           -> Single(Time(s))
    [] fn = "parse_time_list"      -> ListOf(s, Time)
    [] fn = "parse_date"           -> Single(Date(s))
    [] fn = "parse_date_list"      -> ListOf(s, Date)
    [] fn = "parse_date_time"      -> Single(DateTime(s))
    [] fn = "parse_date_time_list" -> ListOf(s, DateTime)
    [] fn = "parse_timestamp"      -> Single(Timestamp(s))
    [] fn = "parse_timestamp_list" -> ListOf(s, Timestamp)
    [] fn = "DateAndOrTime"        -> Single(DateAndOrTime(s))
    [] fn = "parse_date_and_or_time_list" -> ListOf(s, DateAndOrTime)
    [] fn = "parse_boolean"        -> Single(Boolean(s))
    [] fn = "parse_integer_list"   -> ListOf(s, Integer)
    [] fn = "parse_float_list"     -> ListOf(s, Float)
    [] fn \in {"Uri", "UriProperty"} -> Single(Uri(s))
    [] fn = "Date"                 -> Single(RfcDate(s))
    [] fn = "DateTime"             -> Single(RfcDateTime(s))
    [] fn = "RelatedType"          -> Single(Word(s, RelTypes))
    [] fn = "TelephoneType"        -> Single(Word(s, TelTypes))
    [] fn = "DeliveryAddress"      -> OfValue(AddressValue(s))
    [] fn = "Gender"               -> GenderText(s)
    [] fn = "ClientPidMap"         -> OfValue(PidMapValue(s, s))
    [] fn = "Kind"                 -> Single(KindValue(s))
    [] fn = "Sex"                  -> Single(SexValue(s))
    [] fn = "Pid"                  -> Single(Pid(s))
    [] fn = "ValueType"            -> Single(ValueTypeOf(s))
    [] fn = "TypeParameter"        -> Single(TypeOf(s))
(* What a value that is written as text denotes.  The identity of a gender is *)
(* escaped when it is written, and its parser takes it without escapes.       *)
Shown(fn, out) ==
  IF fn = "Gender" THEN GenderText(Unescape(out)) ELSE ValueOf(fn, out)
Printed == {"UtcOffsetProperty", "DateAndOrTime", "Uri", "UriProperty", "Date", "DateTime", "RelatedType", "TelephoneType",
  "DeliveryAddress", "Gender", "ClientPidMap", "Kind", "Sex", "Pid", "ValueType", "TypeParameter"}

(* Values shown as text.  in is the value in canonical form. *)
DashDate(v) == SubSeq(v, 1, 4) \o <<DASH>> \o SubSeq(v, 5, 6) \o <<DASH>> \o SubSeq(v, 7, 8)
Rfc3339(v) ==
  LET t == From(v, 10) IN
  DashDate(v) \o <<ChT>> \o SubSeq(t, 1, 2) \o <<COLON>> \o SubSeq(t, 3, 4) \o <<COLON>> \o SubSeq(t, 5, 6)
  \o (IF From(t, 7) = Utc THEN S("Z") ELSE SubSeq(t, 7, 9) \o <<COLON>> \o SubSeq(t, 10, 11))
=============================================================================
