------------------------------ MODULE MC_Names -----------------------------
(* Every property name after at most N single character edits, in every case, *)
(* with and without group, and with what may stand behind it.  C10.           *)
EXTENDS Catalog

Seeds == {NameText[s] : s \in Slots} \cup {S("X-A"), S("x-Foo-9"), S("VERSION"), S("AGENT")}
GoodText == TLCEval([s \in Slots |-> GoodValue(s)])
Inserted == {65, 115, DASH, 49, DOT, SP, 95, 233, SEMI}
Edited(n) ==
  {SubSeq(n, 1, k - 1) \o From(n, k + 1) : k \in DOMAIN n}
  \cup {SubSeq(n, 1, k - 1) \o <<c>> \o From(n, k + 1) : k \in DOMAIN n, c \in Inserted}
  \cup {SubSeq(n, 1, k) \o <<c>> \o From(n, k + 1) : k \in 0..Len(n), c \in Inserted}
  \cup {[n EXCEPT ![k] = n[k + 1], ![k + 1] = n[k]] : k \in 1..(Len(n) - 1)}

VARIABLES name_, left_
Init == name_ \in Seeds /\ left_ = N
Next == left_ > 0 /\ left_' = left_ - 1
        /\ (left_ < N => Len(name_) <= 4)
        /\ name_' \in Edited(name_)

Cased(n) == {n, Lower(n), Upper(n), [k \in DOMAIN n |-> IF k % 2 = 0 THEN UpperC(n[k]) ELSE LowerC(n[k])],
             [k \in DOMAIN n |-> IF k = Len(n) THEN LowerC(n[k]) ELSE UpperC(n[k])]}
Before == IF left_ = N THEN {<<>>, S("g."), S("G-1."), S("."), S("a.b."), S("g.."), S("-."), S("g .") , S("x-a."), S("FN."), S("begin.")}
            ELSE {<<>>, S("g.")}
Behind == IF left_ = N THEN {<<COLON>>, S(";X-P=q:"), S(";:"), S(" :"), <<>>, S("="), S(";ALTID=1"), S(".:"), S("::")} ELSE {<<COLON>>}

(* A name in another case is the same name; a private name is kept.           *)
CaseIsIrrelevant == \A m \in Cased(name_) : SlotFor(m) = SlotFor(name_)
PrivateNamesAreKept ==
  SlotFor(name_) = Private =>
    \A m \in Cased(name_) : LET r == Property(m \o S(":t"), Strict) IN r.st = "ok" /\ r.p.n = m /\ r.p.g = <<>>
(* The slot is the one whose name it is. *)
SlotIsItsName == \A s \in Slots : (SlotFor(name_) = s) <=> (Upper(name_) = NameText[s])
GroupsAreKept ==
  SlotFor(name_) \in Slots =>
    LET v == <<COLON>> \o GoodText[SlotFor(name_)]
        a == Property(name_ \o v, Strict) b == Property(S("g-7.") \o name_ \o v, Strict)
    IN a.st = "ok" /\ b = [a EXCEPT !.p.g = <<S("g-7")>>]

Val == LET s == SlotFor(name_) IN IF s \in Slots THEN GoodText[s] ELSE S("urn:a:b")
(* Lines that begin or end a card are no property lines, and one that begins  *)
(* with a space is the rest of the one before.                                *)
Frame(line) == line[1] = SP \/ \E w \in {S("BEGIN"), S("END"), S("VERSION")} : StartsWith(Upper(line), w)
Emit ==
  \A m \in (IF left_ = N THEN Cased(name_) ELSE {name_}) : \A pre \in Before : \A be \in Behind :
    LET line == pre \o m \o be \o Val IN
    Frame(line) \/ \A cfg \in (IF left_ = N THEN Cfgs ELSE {Strict}) : LineCase(line, cfg)
=============================================================================
