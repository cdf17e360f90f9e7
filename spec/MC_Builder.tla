------------------------------ MODULE MC_Builder ---------------------------
(* Every sequence of at most N calls of the builder.  C19.                    *)
EXTENDS Model

C(m, a) == [m |-> m, a |-> a]
U(m) == C(m, <<S("urn:a:") \o S(m)>>)
Calls == <<
  C("kind", <<S("group")>>), C("kind", <<S("org")>>), U("source"), C("xml", <<S("<a/>")>>), C("formatted_name", <<S("n, m")>>),
  C("name", <<S("a"), S("b;c"), <<>>, S("d"), S("e")>>), C("name", <<S("z"), <<>>, <<>>, <<>>, <<>>>>), C("nickname", <<S("k")>>), U("photo"),
  C("birthday", <<S("20000229")>>), C("birthday", <<S("19991231")>>), C("anniversary", <<S("00000101")>>), C("anniversary", <<S("19700101")>>),
  C("gender", <<S("M")>>), C("gender", <<S("F;it is")>>), C("gender", <<S("?")>>), C("gender", <<<<>>>>), C("gender", <<S(";x;y")>>), C("gender", <<S("X;y")>>),
  C("address", <<<<>>, <<>>, S("s"), S("t"), <<>>, S("1"), S("c")>>), C("address", <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>),
  C("telephone", <<S("+1")>>), C("email", <<S("a@b")>>), U("impp"), C("lang", <<S("en")>>), C("timezone", <<S("Z")>>), U("geo"),
  C("title", <<S("t")>>), C("role", <<S("r")>>), U("logo"), C("org", <<S("o"), S("p;q")>>), U("member"), U("related"),
  C("categories", <<S("a"), S("b,c")>>), C("note", <<S("n")>>), C("note", <<<<>>>>), C("prod_id", <<S("p")>>), C("prod_id", <<S("q")>>),
  C("rev", <<S("20220101T102030+0000")>>), C("rev", <<S("20000229T235959-0030")>>), U("sound"), U("uid"), C("uid", <<S("http://a.b/")>>),
  U("url"), U("key"), U("fburl"), U("cal_adr_uri"), U("cal_uri") >>
ASSUME {Calls[k].m : k \in DOMAIN Calls} = Methods

VARIABLE calls_
Init == calls_ = <<>>
Next == Len(calls_) < N /\ \E k \in DOMAIN Calls : calls_' = Append(calls_, k)
Card1(ks) == FoldLeft(LAMBDA c, k : Apply(c, Calls[k]).card, Built(S("first")), ks)
SlotOf(k) == MethodTable[RowOf[Calls[k].m]][2]

(* Calls for different fields commute; a field that occurs once is replaced.  *)
CallsCommute ==
  Len(calls_) >= 2 =>
    LET n == Len(calls_) a == calls_[n - 1] b == calls_[n]
        swapped == [calls_ EXCEPT ![n - 1] = b, ![n] = a]
    IN SlotOf(a) # SlotOf(b) => Card1(swapped) = Card1(calls_)
OneOfEach == \A s \in Once : Cardinality({k \in DOMAIN Card1(calls_) : Card1(calls_)[k].s = s}) <= 1
OnlyNamedFields ==
  Len(calls_) >= 1 =>
    LET n == Len(calls_) before == Card1(SubSeq(calls_, 1, n - 1)) after == Card1(calls_) IN
    /\ \A s \in Slots \ {SlotOf(calls_[n])} : SelectSeq(before, LAMBDA p : p.s = s) = SelectSeq(after, LAMBDA p : p.s = s)
    /\ Len(after) - Len(before) \in {0, 1}
Emit == Case([op |-> "build", first |-> S("first"), calls |-> [k \in DOMAIN calls_ |-> Calls[calls_[k]]],
              want |-> [card |-> Card1(calls_)]])
=============================================================================
