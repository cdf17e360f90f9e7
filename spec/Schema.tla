------------------------------- MODULE Schema ------------------------------
(* The properties of a card and their rules (RFC 6350 section 6).           *)
EXTENDS Values

(* Canonical order of the slots of a card, and what each holds:             *)
(*   text, uri, texturi (text or URI), list; list, (components), kind,       *)
(*   gender, adr, lang, tz, dt (date and/or time or text), ts (timestamp),   *)
(*   pidmap                                                                  *)
SlotTable == <<
  <<"SOURCE", "uri">>, <<"KIND", "kind">>, <<"XML", "text">>, <<"FN", "text">>,
  <<"N", "list;">>, <<"NICKNAME", "text">>, <<"PHOTO", "photo">>, <<"BDAY", "dt">>,
  <<"ANNIVERSARY", "dt">>, <<"GENDER", "gender">>, <<"URL", "uri">>, <<"ADR", "adr">>,
  <<"TITLE", "text">>, <<"ROLE", "text">>, <<"LOGO", "uri">>, <<"ORG", "list;">>,
  <<"MEMBER", "uri">>, <<"RELATED", "texturi">>, <<"TEL", "texturi">>, <<"EMAIL", "text">>,
  <<"IMPP", "uri">>, <<"LANG", "lang">>, <<"TZ", "tz">>, <<"GEO", "uri">>,
  <<"CATEGORIES", "list,">>, <<"NOTE", "text">>, <<"PRODID", "text">>, <<"REV", "ts">>,
  <<"SOUND", "uri">>, <<"UID", "texturi">>, <<"CLIENTPIDMAP", "pidmap">>, <<"KEY", "texturi">>,
  <<"FBURL", "uri">>, <<"CALADRURI", "uri">>, <<"CALURI", "uri">> >>
Slots == {SlotTable[k][1] : k \in DOMAIN SlotTable}
Private == "X-"
SlotOrder == [k \in 1..(Len(SlotTable) + 1) |->
                IF k <= Len(SlotTable) THEN SlotTable[k][1] ELSE Private]
KindOf == TLCEval([s \in Slots |-> (CHOOSE k \in DOMAIN SlotTable : SlotTable[k][1] = s)])
HoldsOf(slot) == IF slot = Private THEN "private" ELSE SlotTable[KindOf[slot]][2]

(* Names as texts, and back. *)
NameText == TLCEval([s \in Slots |-> S(s)])
NamesByText == TLCEval([t \in {NameText[s] : s \in Slots} |-> CHOOSE s \in Slots : NameText[s] = t])
XDash == S("X-")
(* Slot for a name in any case, or "" *)
SlotFor(name) ==
  LET u == Upper(name) IN
  IF u \in DOMAIN NamesByText THEN NamesByText[u]
  ELSE IF Len(u) > 2 /\ StartsWith(u, XDash) /\ \A i \in DOMAIN u : IsNameChar(u[i]) THEN Private
  ELSE ""

(* At most one of these in a card. *)
Once == {"KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID"}

(* Properties that may carry a TYPE parameter (private ones may as well).    *)
TypeAllowed ==
  {"FN", "NICKNAME", "PHOTO", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "TITLE",
   "ROLE", "LOGO", "ORG", "RELATED", "CATEGORIES", "NOTE", "SOUND", "URL", "KEY", "FBURL",
   "CALADRURI", "CALURI", Private}

(* Parameters in canonical order; private ones follow in document order.     *)
ParamOrder == <<"LANGUAGE", "VALUE", "PREF", "ALTID", "PID", "TYPE", "MEDIATYPE", "CALSCALE",
                "SORT-AS", "GEO", "TZ", "LABEL">>
ParamNames == {ParamOrder[k] : k \in DOMAIN ParamOrder} \cup {"CHARSET", "ENCODING"}
ParamByText == TLCEval([t \in {S(p) : p \in ParamNames} |-> CHOOSE p \in ParamNames : S(p) = t])
ParamFor(name) ==
  LET u == Upper(name) IN
  IF u \in DOMAIN ParamByText THEN ParamByText[u]
  ELSE IF Len(u) > 2 /\ StartsWith(u, XDash) THEN Private ELSE ""
=============================================================================
