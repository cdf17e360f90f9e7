------------------------------ MODULE Builder ------------------------------
(* The builder as a state machine: its state is the card under construction *)
(* and every call is one transition.                                         *)
EXTENDS Reader

(* method, slot, what it takes *)
MethodTable == <<
  <<"kind", "KIND", "kind">>, <<"source", "SOURCE", "uri">>, <<"xml", "XML", "text">>,
  <<"formatted_name", "FN", "text">>, <<"name", "N", "list;">>,
  <<"nickname", "NICKNAME", "text">>, <<"photo", "PHOTO", "uri">>,
  <<"birthday", "BDAY", "date">>, <<"anniversary", "ANNIVERSARY", "date">>,
  <<"gender", "GENDER", "gender">>, <<"address", "ADR", "adr">>,
  <<"telephone", "TEL", "text">>, <<"email", "EMAIL", "text">>, <<"impp", "IMPP", "uri">>,
  <<"lang", "LANG", "lang">>, <<"timezone", "TZ", "text">>, <<"geo", "GEO", "uri">>,
  <<"title", "TITLE", "text">>, <<"role", "ROLE", "text">>, <<"logo", "LOGO", "uri">>,
  <<"org", "ORG", "list;">>, <<"member", "MEMBER", "uri">>, <<"related", "RELATED", "uri">>,
  <<"categories", "CATEGORIES", "list,">>, <<"note", "NOTE", "text">>,
  <<"prod_id", "PRODID", "text">>, <<"rev", "REV", "ts">>, <<"sound", "SOUND", "uri">>,
  <<"uid", "UID", "uri">>, <<"url", "URL", "uri">>, <<"key", "KEY", "uri">>,
  <<"fburl", "FBURL", "uri">>, <<"cal_adr_uri", "CALADRURI", "uri">>,
  <<"cal_uri", "CALURI", "uri">> >>
Methods == {MethodTable[k][1] : k \in DOMAIN MethodTable}
RowOf == TLCEval([m \in Methods |-> CHOOSE k \in DOMAIN MethodTable : MethodTable[k][1] = m])

(* A property without group and parameters. *)
Bare(slot, t, x) == [s |-> slot, g |-> <<>>, n |-> <<>>, p |-> <<>>, t |-> t, x |-> x]

(* A gender as plain text: sex [";" identity]. *)
GenderText(s) ==
  LET semi == FindC(s, 1, SEMI)
      sex == IF semi = 0 THEN s ELSE SubSeq(s, 1, semi - 1)
      r == SexValue(sex)
  IN [st |-> r.st, v |-> IF semi = 0 THEN <<sex>> ELSE <<sex, From(s, semi + 1)>>]

(* The value a call gives its property: [st, t, x]. *)
CallValue(takes, a) ==
  CASE takes = "date"   -> V("ok", "dt", <<<<TagD>> \o a[1]>>)
    [] takes = "gender" -> LET g == GenderText(a[1]) IN V(g.st, "gender", g.v)
    [] takes = "uri"    -> LET u == Uri(a[1]) IN V(u.st, "uri", <<u.v>>)
    [] OTHER            -> V("ok", takes, a)

Built(first) == <<Bare("FN", "text", <<first>>)>>
Without(card, slot) == SelectSeq(card, LAMBDA p : p.s # slot)
(* The card after a call: [st, card]. *)
Apply(card, call) ==
  LET row == MethodTable[RowOf[call.m]]
      slot == row[2]
      v == CallValue(row[3], call.a)
      p == Bare(slot, v.t, v.x)
  IN IF v.st = "err" THEN [st |-> "ok", card |-> card]
     ELSE [st |-> v.st,
           card |-> Canonical(Append(IF slot \in Once THEN Without(card, slot) ELSE card, p))]
=============================================================================
