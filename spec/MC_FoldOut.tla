------------------------------ MODULE MC_FoldOut ---------------------------
(* Lines to be folded: user-perceived characters of every width around the    *)
(* places where a line is full, in values, parameters and names.  C03.        *)
EXTENDS Model

(* User-perceived characters: 1 to 4 octets, with combining marks, joined     *)
(* emoji, a flag, a Hangul syllable of parts, an escape pair, wide ones.      *)
Chars1 == <<
  <<97>>, <<233>>, <<8364>>, <<128512>>, <<101, 769>>, <<97, 776, 803, 769>>, <<128104, 8205, 128105, 8205, 128103>>,
  <<127465, 127466>>, <<4370, 4449, 4523>>, <<44>>, <<10>>, <<32>>, <<9>>, <<92>>, <<2325, 2381, 2359>>, <<3609, 3637, 3657>>,
  [k \in 1..40 |-> IF k = 1 THEN 111 ELSE 776], [k \in 1..25 |-> IF k % 2 = 1 THEN 128105 ELSE 8205] >>
VARIABLES run_, grs_, host_
Lens == IF N <= 1 THEN 60..76 ELSE 62..75
Init == run_ \in Lens /\ grs_ = <<>> /\ host_ \in 1..4
Next == Len(grs_) < N /\ (\E k \in DOMAIN Chars1 : grs_' = Append(grs_, k)) /\ UNCHANGED <<run_, host_>>
As(n) == [k \in 1..n |-> 97]
Middle == FoldLeft(LAMBDA a, k : a \o Chars1[k], <<>>, grs_)
Long == As(run_) \o Middle \o As(10) \o Middle \o As(61)
Fn == Bare("FN", "text", <<S("f")>>)
Card1 ==
  CASE host_ = 1 -> <<Fn, Bare("NOTE", "text", <<Long>>)>>
    [] host_ = 2 -> <<Fn, [Bare("NOTE", "text", <<S("v")>>) EXCEPT !.p = <<[k |-> "ALTID", v |-> <<Long>>]>>]>>
    [] host_ = 3 -> <<Fn, [Bare("ORG", "list;", <<S("b"), Middle, Long>>) EXCEPT !.g = <<S("group")>>]>>
    [] host_ = 4 -> <<Fn, [Bare(Private, "text", <<Long>>) EXCEPT !.n = S("X-") \o As(80)]>>

(* The folder of the specification cuts rightly, whatever the width.          *)
Gr == [k \in 1..run_ |-> <<97>>] \o [k \in DOMAIN grs_ |-> Chars1[grs_[k]]] \o [k \in 1..30 |-> <<98>>]
FolderIsRight ==
  host_ = 1 => \A w \in {75, 20, 5} :
    LET ph == PhysicalLines(FoldLine(Gr, w) \o CRLF)
    IN Middle = <<>> \/ FindIn(Middle, 1, {LF, TAB, SP}) # 0 \/ FoldedOk(ph, Gr, w)
FoldingIsUndone ==
  host_ = 1 => \A w \in {75, 20} : Unfold(FoldLine(Gr, w)) = FlattenSeq(Gr) \/ FindC(Middle, 1, LF) # 0
Emit == EncodeCase(Card1)
=============================================================================
