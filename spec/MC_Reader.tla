------------------------------ MODULE MC_Reader ----------------------------
(* Every document of at most N content lines over an alphabet of lines, read *)
(* by the strict and by the lenient reader side by side.                      *)
(*                                                                           *)
(* The reader is a machine that looks at one line at a time; the theorems     *)
(* state what that comes to for whole documents (C06, C07, C08, C09, C23),    *)
(* and every document is a case for the implementation.                       *)
EXTENDS Model

(* WIDE: lines of every kind.  DEEP: few kinds, for documents of several cards.*)
Alphabet == TLCEval(
  CASE IOEnv.ALPHABET = "wide" ->
         <<S("BEGIN:VCARD"), S("VERSION:4.0"), S("END:VCARD"), <<>>, S("FN:a"), S("KIND:group"),
           S("KIND:org"), S("MEMBER:urn:a:b"), S("N:x;y"), S("i.N:z"), S("fn:b"), S("junk"),
           S("TITLE;PREF=0:t"), S("end:vcard"), S("begin:vcard"), S("version:3.0"),
           S("VERSION:2.1")>>
    [] IOEnv.ALPHABET = "once" ->
         <<S("BEGIN:VCARD"), S("VERSION:3.0"), S("END:VCARD"), S("FN:a"), S("KIND:org"), S("i.kind:group"), S("N:x"),
           S("N;SORT-AS=a:x"), S("BDAY:2000"), S("BDAY;VALUE=text:x"), S("ANNIVERSARY:2000"), S("ANNIVERSARY:--01"),
           S("GENDER:M"), S("GENDER:;x"), S("PRODID:p"), S("PRODID:q"), S("REV:20000101T000000Z"),
           S("REV:20010101T000000Z"), S("UID:urn:a:b"), S("UID;VALUE=text:x")>>
    [] OTHER ->
         <<S("BEGIN:VCARD"), S("VERSION:4.0"), S("END:VCARD"), <<>>, S("FN:a"), S("junk")>>)

(* The outcome of every line of the alphabet, computed once. *)
TableOf(cfg) == TLCEval([t \in {Alphabet[k] : k \in DOMAIN Alphabet} \cup {S("FN:r"), S("VERSION:4.0"), BeginLine, EndLine} |-> PropertyOf(t, cfg)])
StrictTable == TableOf(Strict)
LooseTable == TableOf(Loose)
Cached(t, cfg) == (IF cfg.strict THEN StrictTable ELSE LooseTable)[t]

IsBegin(k) == Upper(Alphabet[k]) = BeginLine
IsEnd(k) == Upper(Alphabet[k]) = EndLine
IsVersion(k) == Upper(Alphabet[k]) \in VersionLines
IsBlank(k) == Alphabet[k] = <<>>
IsBody(k) == ~(IsBegin(k) \/ IsEnd(k) \/ IsVersion(k))

Lines(doc) == TLCEval([i \in 1..Len(doc) |-> Line(Alphabet[doc[i]])])

(* The names are like no bound identifier of any module: TLC would not keep  *)
(* the values of constants in which such an identifier occurs.                *)
VARIABLES doc_,   \* the lines so far, as indexes into the alphabet
          st_,    \* the strict and
          lo_     \* the lenient reader behind them
vars == <<doc_, st_, lo_>>

Init == doc_ = <<>> /\ st_ = Start /\ lo_ = Start
Over(rd) == rd.mode \in {"failed", "open"}
Next == /\ Len(doc_) < N
        /\ ~(Over(st_) /\ Over(lo_))
        /\ \E k \in DOMAIN Alphabet :
             /\ doc_' = Append(doc_, k)
             /\ st_' = Step(st_, Line(Alphabet[k]), Strict, TRUE)
             /\ lo_' = Step(lo_, Line(Alphabet[k]), Loose, TRUE)

(***************************************************************************)
(* Theorems.                                                                 *)
(***************************************************************************)
Good(k) == IsBody(k) /\ Cached(Alphabet[k], Strict).st = "ok"

Begins(d) == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : IsBegin(d[i]))
Ends(d) == SelectSeq([i \in 1..Len(d) |-> i], LAMBDA i : IsEnd(d[i]))
(* A frame around each card, nothing but blank lines between the cards.      *)
Framed(d) ==
  LET b == Begins(d) e == Ends(d) IN
  /\ Len(b) = Len(e) /\ Len(b) >= 1
  /\ \A i \in DOMAIN b : b[i] + 1 < e[i] /\ IsVersion(d[b[i] + 1])
  /\ \A i \in 2..Len(b) : e[i - 1] < b[i]
  /\ \A j \in DOMAIN d : IsVersion(d[j]) => \E i \in DOMAIN b : j = b[i] + 1
  /\ \A j \in DOMAIN d : IsBlank(d[j]) \/ \E i \in DOMAIN b : j >= b[i] /\ j <= e[i]
(* The body lines of card i. *)
Body(d, i) == SubSeq(d, Begins(d)[i] + 2, Ends(d)[i] - 1)
NumCards(d) == Len(Begins(d))
Count(body, P(_)) == Len(SelectSeq(body, P))
SlotOf(k) == Cached(Alphabet[k], Loose).p.s

GoodCard(body) ==
  /\ \A j \in DOMAIN body : Good(body[j])
  /\ \A s \in Once : Count(body, LAMBDA k : SlotOf(k) = s) <= 1
  /\ \E j \in DOMAIN body : SlotOf(body[j]) = "FN"
  /\ (\E j \in DOMAIN body : SlotOf(body[j]) = "MEMBER") =>
       (\E j \in DOMAIN body : Cached(Alphabet[body[j]], Strict).p.x = <<S("group")>> /\ SlotOf(body[j]) = "KIND")

Accepted(rd) == Finish(rd).mode = "done"

(* C06, C09: what the strict reader accepts. *)
StrictAccepts ==
  Accepted(st_) <=> Framed(doc_) /\ \A i \in 1..NumCards(doc_) : GoodCard(Body(doc_, i))

(* C08: the lines that are dropped, and what is left. *)
RECURSIVE KeptBody(_, _)
KeptBody(body, kept) ==
  IF body = <<>> THEN kept
  ELSE LET k == body[1]
           keep == Good(k) /\ ~(SlotOf(k) \in Once /\ \E j \in DOMAIN kept : SlotOf(kept[j]) = SlotOf(k))
       IN KeptBody(Tail(body), IF keep THEN Append(kept, k) ELSE kept)
Pruned(d) ==
  FlattenSeq([i \in 1..NumCards(d) |->
    SubSeq(d, Begins(d)[i], Begins(d)[i] + 1) \o KeptBody(Body(d, i), <<>>) \o <<d[Ends(d)[i]]>>])
LooseIsStrictOfTheRest ==
  Framed(doc_) => LET want == DecodeLines(Lines(Pruned(doc_)), Strict)
                     f == Finish(lo_)
                 IN /\ (f.mode = "done") <=> (want.res = "ok")
                    /\ f.mode = "done" => f.cards = want.cards
LooseExtendsStrict == Accepted(st_) => lo_ = st_
LooseNeedsTheFrame == Accepted(lo_) => Framed(doc_)

(* C09: decoded cards are valid and hold what may be there once only once. *)
CardsAreValid ==
  \A rd \in {st_, lo_} : \A c \in {rd.cards[i] : i \in DOMAIN rd.cards} :
     Valid(c) /\ \A s \in Once : Len(SelectSeq(c, LAMBDA p : p.s = s)) <= 1

(* C07: iteration. *)
Iteration ==
  \A cfg \in Cfgs :
    LET rd == IF cfg.strict THEN st_ ELSE lo_
        its == Items(Lines(doc_), 0, cfg, <<>>)
        n == Len(its)
    IN /\ its[n].item = "end"
       /\ n <= Len(Begins(doc_)) + 2
       /\ \A i \in 1..(n - 1) : its[i].item \in {"card", "error"}
       /\ Accepted(rd) => /\ n = Len(rd.cards) + 1
                          /\ \A i \in 1..(n - 1) : its[i].item = "card" /\ its[i].card = rd.cards[i]
       \* no well-formed card is lost: one that starts where a card may start
       /\ \A i \in DOMAIN Begins(doc_) :
            LET b == Begins(doc_)[i]
                r == ReadCard(Lines(doc_), b - 1, Start, cfg)
            IN r.rd.mode = "idle" /\ r.rd.cards # <<>> =>
                 \E j \in 1..n : its[j].item = "card" /\ its[j].at = r.at

(* C23: what is accepted twice is accepted one after the other, and one       *)
(* rejected part makes the whole rejected.                                    *)
Composition ==
  \A cfg \in Cfgs : \A i \in 1..(Len(doc_) - 1) :
    LET a == DecodeLines(Lines(SubSeq(doc_, 1, i)), cfg)
        b == DecodeLines(Lines(SubSeq(doc_, i + 1, Len(doc_))), cfg)
        f == Finish(IF cfg.strict THEN st_ ELSE lo_)
        blank(d) == \A j \in DOMAIN d : IsBlank(d[j])
    IN /\ a.res = "ok" /\ b.res = "ok" => f.mode = "done" /\ f.cards = a.cards \o b.cards
       /\ (a.res = "ok") # (b.res = "ok") /\ ~blank(SubSeq(doc_, 1, i)) /\ ~blank(SubSeq(doc_, i + 1, Len(doc_)))
            => f.mode # "done"

(***************************************************************************)
(* Cases: with CRLF or LF, and with and without a last line break.            *)
(***************************************************************************)
Break(i) == IF i % 2 = 0 THEN <<CR, LF>> ELSE <<LF>>
Text(d) == FoldLeft(LAMBDA acc, i : acc \o Alphabet[d[i]] \o (IF i < Len(d) THEN Break(Len(d) + d[Len(d)]) ELSE <<>>),
                    <<>>, [i \in 1..Len(d) |-> i])
Res(f) == IF f.mode = "done" THEN "ok" ELSE IF f.mode = "open" THEN "any" ELSE "err"
Unended(d) == [Lines(d) EXCEPT ![Len(d)].nl = FALSE]
(* What a document that is not explored further might have gone on with.      *)
Rests == TLCEval(<<
  <<EndLine>>, <<S("FN:r"), EndLine>>, <<S("VERSION:4.0"), S("FN:r"), EndLine>>,
  <<BeginLine, S("VERSION:4.0"), S("FN:r"), EndLine>> >>)
Frontier == Len(doc_) = N \/ (Over(st_) /\ Over(lo_))
Went(k) == Lines(doc_) \o [i \in DOMAIN Rests[k] |-> Line(Rests[k][i])]
WentText(k) == Text(doc_) \o FoldLeft(LAMBDA a, t : a \o Break(k) \o t, <<>>, Rests[k]) \o <<LF>>
EmitRests ==
  Frontier => \A k \in DOMAIN Rests : \A cfg \in Cfgs :
    LET r == DecodeLines(Went(k), cfg) IN DecodeCase(WentText(k), cfg, r.res, r.cards)
EmitIterRests ==
  Frontier => \A k \in DOMAIN Rests : \A cfg \in Cfgs :
    LET its == Items(Went(k), 0, cfg, <<>>) IN
    Case([op |-> "iter", in |-> WentText(k), strict |-> cfg.strict,
          want |-> [items |-> [i \in DOMAIN its |-> [item |-> its[i].item, card |-> its[i].card]]]])
EmitDecode ==
  LET t == Text(doc_)
      Both(cfg, f) ==
        /\ DecodeCase(t \o Break(Len(doc_) + doc_[Len(doc_)]), cfg, Res(f), f.cards)
        /\ Alphabet[doc_[Len(doc_)]] # <<>> =>
             LET u == DecodeLines(Unended(doc_), cfg) IN DecodeCase(t, cfg, u.res, u.cards)
  IN doc_ # <<>> => Both(Strict, Finish(st_)) /\ Both(Loose, Finish(lo_))
EmitIter ==
  doc_ # <<>> => \A cfg \in Cfgs :
    LET t == Text(doc_)
        its == Items(Lines(doc_), 0, cfg, <<>>)
        Short(x) == [k \in DOMAIN x |-> [item |-> x[k].item, card |-> x[k].card]]
        un == Items(Unended(doc_), 0, cfg, <<>>)
    IN /\ Case([op |-> "iter", in |-> t \o Break(Len(doc_) + doc_[Len(doc_)]), strict |-> cfg.strict, want |-> [items |-> Short(its)]])
       /\ Alphabet[doc_[Len(doc_)]] # <<>> =>
            Case([op |-> "iter", in |-> t, strict |-> cfg.strict, want |-> [items |-> Short(un)]])
Emit == CASE IOEnv.EMIT = "decode" -> EmitDecode /\ EmitRests
          [] IOEnv.EMIT = "iter" -> EmitIter /\ EmitIterRests [] OTHER -> TRUE
=============================================================================
