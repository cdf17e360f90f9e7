------------------------------- MODULE MC_Cards ----------------------------
(* Every card of at most N properties of the catalog.  C01, C02, C09, C18,   *)
(* C22.                                                                      *)
EXTENDS Catalog

VARIABLE seq_
Init == seq_ = <<>>
Next == Len(seq_) < N /\ \E k \in DOMAIN Items1 :
          /\ \A i \in DOMAIN seq_ : Items1[seq_[i]].p.s \in Once => Items1[seq_[i]].p.s # Items1[k].p.s
          /\ seq_' = Append(seq_, k)
Props1 == [i \in DOMAIN seq_ |-> Items1[seq_[i]].p]
Card1 == Canonical(Props1)

(* The order of a card is a matter of its slots only. *)
CanonicalIsStable == Canonical(Card1) = Card1
CanonicalKeepsAll == Len(Card1) = Len(seq_) /\ \A k \in DOMAIN Props1 : Props1[k] \in {Card1[j] : j \in DOMAIN Card1}
CanonicalKeepsOrder ==
  \A slot \in {Props1[k].s : k \in DOMAIN Props1} :
    SelectSeq(Card1, LAMBDA p : p.s = slot) = SelectSeq(Props1, LAMBDA p : p.s = slot)

Fn1 == Bare("FN", "text", <<S("f")>>)
Member1 == Bare("MEMBER", "uri", <<S("urn:m:m")>>)
With3(card, ps) == Canonical(FoldLeft(LAMBDA a, p : IF Has(a, p.s) THEN a ELSE Append(a, p), card, ps))
Group1 == Bare("KIND", "kind", <<S("group")>>)
(* Made valid, so that what is written may be read. *)
Valid1 ==
  LET a == IF Has(Card1, "FN") THEN Card1 ELSE Append(Card1, Fn1)
      b == IF Has(a, "MEMBER") /\ ~Valid(a) THEN Append(SelectSeq(a, LAMBDA p : p.s # "KIND"), Group1) ELSE a
  IN Canonical(b)

Emit ==
  CASE IOEnv.EMIT = "encode" -> EncodeCase(Valid1)
    [] IOEnv.EMIT = "serde" -> Case([op |-> "serde", card |-> Card1])
    [] IOEnv.EMIT = "validate" ->
         \A c \in {Card1, With3(Card1, <<Fn1>>), With3(Card1, <<Fn1, Member1>>)} :
           Case([op |-> "validate", card |-> c, want |-> [res |-> IF Valid(c) THEN "ok" ELSE "err"]])
    [] OTHER -> \* as a document, and as one that has what it needs
         \A more \in (IF Valid(Card1) THEN {<<>>} ELSE {<<>>, <<S("FN:f")>>}) :
           LET ls == FoldLeft(LAMBDA a, t : Append(a, Line(t)), <<Line(BeginLine), Line(S("VERSION:4.0"))>>,
                              more \o [i \in DOMAIN seq_ |-> Lines1[seq_[i]]]) \o <<Line(EndLine)>>
               text == FoldLeft(LAMBDA a, l : a \o l.t \o CRLF, <<>>, ls)
               r == DecodeLines(ls, Strict)
           IN DecodeCase(text, Strict, r.res, r.cards)
=============================================================================
