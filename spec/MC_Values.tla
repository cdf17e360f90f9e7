----------------------------- MODULE MC_Values -----------------------------
(* Every public parser of a single value on every text of at most N tokens    *)
(* that mean something to it.  C24, C05.                                      *)
EXTENDS Model

Words == <<S("home"), S("Work"), S("cell"), S("TEXT"), S("textphone"), S("co-worker"), S("Me"), S("x-"), S("X-a"), S("-"), S(" "), <<KELVIN>>>>
         \o SetToSeq({S("x-") \o w : w \in TelTypes} \cup TelTypes \cup RelTypes)
TokensOf(fn) ==
  CASE fn = "Uri" \/ fn = "UriProperty" -> <<S("urn:"), S("http:"), S("//"), S("a"), S("/"), S(":"), S("1"), S("?"), S("#"), S(" "), S("%"), S("%41"), S("."), S("@"), S("["), <<233>>>>
    [] fn = "Date" -> <<S("2000"), S("1900"), S("-"), S("02"), S("29"), S("13"), S("00"), S("T"), S(" ")>>
    [] fn = "DateTime" -> <<S("2000-02-29T"), S("2001-02-29T"), S("0000-12-31T"), S("235959"), S("23:59:59"), S("24:00:00"), S("10:60:00"), S("Z"), S("+"), S("-"), S("00:00"), S("23:59"), S("0030"), S("24:00")>>
    [] fn \in {"RelatedType", "TelephoneType", "TypeParameter"} -> Words
    [] fn = "DeliveryAddress" -> <<S(";"), S(";;;"), S("a"), S("\\;"), S("\\\\"), S("\\n"), S(","), S("\\,"), S("\\")>>
    [] fn = "Gender" -> <<S("M"), S("F"), S("O"), S("N"), S("U"), S("m"), S("X"), S(";"), S("it"), S(","), S("\\"), S(" "), <<LF>>, <<233>>>>
    [] fn = "ClientPidMap" -> <<S("1"), S("0"), S("18446744073709551615"), S("18446744073709551616"), S("-"), S("+"), S(" "), S(";"), S("urn:a:b"), S("a")>>
    [] fn = "Kind" -> <<S("individual"), S("group"), S("org"), S("location"), S("Group"), S("a"), S(" "), S("\\")>>
    [] fn = "Sex" -> <<S("M"), S("F"), S("O"), S("N"), S("U"), S("m"), S("X"), S(" "), S(";")>>
    [] fn = "Pid" -> <<S("1"), S("0"), S("07"), S("18446744073709551615"), S("18446744073709551616"), S("."), S("-"), S("+"), S(" "), S("a"), S(",")>>
    [] fn = "ValueType" -> SetToSeq(ValueTypes \cup {Upper(v) : v \in ValueTypes} \cup {S("x"), S(" "), S("-"), <<KELVIN>>})
    [] fn = "parse_boolean" -> <<S("true"), S("TRUE"), S("fAlSe"), S("false"), S("1"), S(" "), S(","), S("t"), S("yes")>>
    [] fn = "parse_integer_list" -> <<S("1"), S("0"), S("-"), S("+"), S(","), S("."), S("9223372036854775807"), S("9223372036854775808"), S(" "), S("a")>>
    [] fn = "parse_float_list" -> <<S("1"), S("0"), S("-"), S("+"), S(","), S("."), S("25"), S("e"), S("NaN"), S("inf"), S(" "), S("a")>>
    [] fn \in {"parse_utc_offset", "UtcOffsetProperty"} -> <<S("+"), S("-"), S("0"), S("1"), S("23"), S("24"), S("59"), S("60"), S("Z"), S(":"), S(" ")>>
    [] OTHER -> <<S("1985"), S("04"), S("12"), S("-"), S("--"), S("T"), S("10"), S("2200"), S("Z"), S("+"), S(","), S("60")>>
Fns == {"Uri", "UriProperty", "Date", "DateTime", "RelatedType", "TelephoneType", "TypeParameter", "DeliveryAddress", "Gender",
  "ClientPidMap", "Kind", "Sex", "Pid", "ValueType", "parse_boolean", "parse_integer_list", "parse_float_list", "parse_utc_offset",
  "UtcOffsetProperty", "parse_time", "parse_time_list", "parse_date", "parse_date_list", "parse_date_time", "parse_date_time_list",
  "parse_timestamp", "parse_timestamp_list", "DateAndOrTime", "parse_date_and_or_time_list"}
Depth(fn) == IF fn \in {"RelatedType", "TelephoneType", "TypeParameter", "ValueType"} THEN 2
             ELSE IF fn = "Date" THEN N + 2 ELSE IF fn = "DeliveryAddress" THEN N + 1 ELSE N
Toks == TLCEval([f \in Fns |-> TLCEval(TokensOf(f))])

VARIABLES fn_, toks_
Init == fn_ \in Fns /\ toks_ = <<>>
Next == Len(toks_) < Depth(fn_) /\ (\E k \in DOMAIN Toks[fn_] : toks_' = Append(toks_, k)) /\ UNCHANGED fn_
Text1 == FlattenSeq([i \in DOMAIN toks_ |-> Toks[fn_][toks_[i]]])
W1 == ValueOf(fn_, Text1)

(* Words are words in any case; a value that is a word denotes itself.        *)
CaseIsIrrelevant ==
  fn_ \in {"RelatedType", "TelephoneType", "ValueType", "parse_boolean"} =>
    W1.st = "any" \/ (ValueOf(fn_, Upper(Text1)) = W1 /\ ValueOf(fn_, Lower(Text1)) = W1)
(* What is read is in canonical form already: reading it changes nothing.     *)
ReadingIsIdempotent ==
  (W1.st = "ok" /\ fn_ \in {"Uri", "UriProperty", "Kind", "Sex", "Pid", "ValueType", "RelatedType", "TelephoneType", "parse_boolean",
                            "UtcOffsetProperty", "parse_utc_offset", "parse_date", "parse_time", "parse_date_time", "parse_timestamp"}) =>
    ValueOf(fn_, W1.v[1]) = W1
(* A list is as good as its items. *)
ItemFn == [parse_time_list |-> "parse_time", parse_date_list |-> "parse_date", parse_date_time_list |-> "parse_date_time",
           parse_timestamp_list |-> "parse_timestamp", parse_date_and_or_time_list |-> "DateAndOrTime"]
ListsAreItems ==
  fn_ \in DOMAIN ItemFn =>
    LET parts == SplitC(Text1, COMMA) IN
    (W1.st = "ok") = (\A k \in DOMAIN parts : ValueOf(ItemFn[fn_], parts[k]).st = "ok")
Emit == ValueCase(fn_, Text1)
=============================================================================
