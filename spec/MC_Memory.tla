------------------------------ MODULE MC_Memory ----------------------------
(* A mark in every place of a card that holds private text: every property,   *)
(* every type of value, every parameter.  C17.                                *)
EXTENDS Catalog

(* The allocator of the harness looks for texts of this form.                 *)
Mark(id) == FoldLeft(LAMBDA a, k : a \o S("Zq7") \o Digits(id, 4), <<>>, [k \in 1..8 |-> k])

TextTypes == {"text", "list;", "list,", "adr", "lang"}
(* Every parameter that can hold text. *)
Pars == <<
  [k |-> "LANGUAGE", v |-> <<S("?")>>], [k |-> "ALTID", v |-> <<S("?")>>], [k |-> "TYPE", v |-> <<S("x:?"), S("home"), S("x:?")>>],
  [k |-> "MEDIATYPE", v |-> <<S("?")>>], [k |-> "CALSCALE", v |-> <<S("?")>>], [k |-> "SORT-AS", v |-> <<S("?"), S("?")>>],
  [k |-> "TZ", v |-> <<S("text"), S("?")>>], [k |-> "LABEL", v |-> <<S("?")>>], [k |-> Private, v |-> <<S("X-?"), S("?"), S("?")>>] >>

VARIABLES item_, pars_, grp_, twice_
Init == item_ \in DOMAIN Items1 /\ pars_ = {} /\ grp_ \in {TRUE, FALSE} /\ twice_ = FALSE
Fits(k) == /\ Pars[k].k = "TYPE" => Items1[item_].p.s \in TypeAllowed
           /\ Pars[k].k = "LABEL" => Items1[item_].p.s = "ADR"
Next == \/ Cardinality(pars_) < N /\ (\E k \in DOMAIN Pars : k \notin pars_ /\ Fits(k) /\ pars_' = pars_ \cup {k}) /\ UNCHANGED <<item_, grp_, twice_>>
        \/ pars_ = {} /\ pars_' = {k \in DOMAIN Pars : Fits(k)} /\ UNCHANGED <<item_, grp_, twice_>>
        \/ ~twice_ /\ Items1[item_].p.s \notin Once /\ twice_' = TRUE /\ UNCHANGED <<item_, pars_, grp_>>

(* Replaces "?" by the mark of the place. *)
Fill(t, id) == LET q == FindC(t, 1, 63) IN IF q = 0 THEN t ELSE SubSeq(t, 1, q - 1) \o Mark(id)
MarkedPar(k, from) == [k |-> Pars[k].k, v |-> [j \in DOMAIN Pars[k].v |-> Fill(Pars[k].v[j], from + 10 * k + j)]]
ParIds(k, from) == {from + 10 * k + j : j \in {j \in DOMAIN Pars[k].v : FindC(Pars[k].v[j], 1, 63) # 0}}
PrivateValues(p, from) ==
  IF p.t \in TextTypes THEN {from + j : j \in DOMAIN p.x} ELSE IF p.t = "gender" /\ Len(p.x) = 2 THEN {from + 2} ELSE {}
VtOf(p) == SelectSeq(p.p, LAMBDA q : q.k = "VALUE")
ParSeq(from) == FoldLeft(LAMBDA a, k : IF k \in pars_ THEN Append(a, MarkedPar(k, from)) ELSE a, <<>>, [k \in DOMAIN Pars |-> k])
Marked1(p, from) ==
  LET ids == PrivateValues(p, from)
      all == VtOf(p) \o ParSeq(from)
      lang == SelectSeq(all, LAMBDA q : q.k = "LANGUAGE")
      rest == SelectSeq(all, LAMBDA q : q.k # "LANGUAGE")
  IN [p EXCEPT !.g = IF grp_ THEN <<Mark(from)>> ELSE <<>>,
               !.n = IF p.s = Private THEN S("X-") \o Mark(from + 9) ELSE <<>>,
               !.x = [j \in DOMAIN p.x |-> IF from + j \in ids THEN Mark(from + j) ELSE p.x[j]],
               !.p = lang \o rest]
Ids1(p, from) ==
  PrivateValues(p, from) \cup (IF grp_ THEN {from} ELSE {}) \cup (IF p.s = Private THEN {from + 9} ELSE {})
  \cup UNION {ParIds(k, from) : k \in pars_}

Item1 == Items1[item_].p
Core == IF twice_ THEN <<Marked1(Item1, 1000), Marked1(Item1, 2000)>> ELSE <<Marked1(Item1, 1000)>>
Ids == IF twice_ THEN Ids1(Item1, 1000) \cup Ids1(Item1, 2000) ELSE Ids1(Item1, 1000)
Card1 ==
  LET a == IF Has(Core, "FN") THEN Core ELSE Append(Core, Bare("FN", "text", <<S("f")>>))
      b == IF Has(a, "MEMBER") THEN Append(a, Bare("KIND", "kind", <<S("group")>>)) ELSE a
  IN Canonical(b)
(* Nothing private is in a property that may stay in memory. *)
EveryTextIsCounted ==
  Item1.t \in TextTypes => PrivateValues(Item1, 1000) # {}
Emit == Case([op |-> "drop", card |-> Card1, private |-> SetToSeq(Ids)])
=============================================================================
