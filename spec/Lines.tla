-------------------------------- MODULE Lines ------------------------------
(* From source text to content lines: unfolding, then splitting at line     *)
(* breaks (RFC 6350 section 3.2).  A line break is LF or CRLF.              *)
EXTENDS Text

(* A fold is a line break directly followed by one space or tab.            *)
IsFoldAt(s, i) == s[i] = LF /\ i < Len(s) /\ s[i + 1] \in {SP, TAB}
Removed(s) ==
  UNION {{i, i + 1} \cup (IF i > 1 /\ s[i - 1] = CR THEN {i - 1} ELSE {}) :
           i \in {j \in DOMAIN s : IsFoldAt(s, j)}}
Unfold(s) ==
  LET gone == Removed(s)
  IN IF gone = {} THEN s
     ELSE LET keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i \notin gone)
          IN TLCEval([k \in 1..Len(keep) |-> s[keep[k]]])

(* Lines of an unfolded text: [t: text without line break, nl: ended by a   *)
(* line break].  A last line that is empty and unended is not a line.       *)
SplitLines(u) ==
  LET raw == SplitC(u, LF)
      n == Len(raw)
      StripCR(t) == IF t # <<>> /\ t[Len(t)] = CR THEN SubSeq(t, 1, Len(t) - 1) ELSE t
      all == TLCEval([k \in 1..n |-> IF k < n THEN [t |-> StripCR(raw[k]), nl |-> TRUE]
                             ELSE [t |-> raw[k], nl |-> FALSE]])
  IN IF all[n].t = <<>> THEN SubSeq(all, 1, n - 1) ELSE all
ContentLines(s) == SplitLines(Unfold(s))

(***************************************************************************)
(* Output folding.  FoldOk(phys, line, gr): the physical lines phys are a    *)
(* correct folding of the content line whose user-perceived characters are   *)
(* gr (a sequence of texts).                                                 *)
(***************************************************************************)
MaxOctets == 75
CRLF == <<CR, LF>>
(* Split text that must consist of CRLF-terminated physical lines.           *)
PhysicalLines(s) ==
  LET raw == SplitC(s, LF) IN
  TLCEval([k \in 1..(Len(raw) - 1) |->
     IF raw[k] # <<>> /\ raw[k][Len(raw[k])] = CR
     THEN SubSeq(raw[k], 1, Len(raw[k]) - 1) ELSE raw[k]])
AllCRLF(s) ==
  /\ s # <<>> /\ s[Len(s)] = LF
  /\ \A i \in DOMAIN s : /\ (s[i] = LF => i > 1 /\ s[i - 1] = CR)
                         /\ (s[i] = CR => i < Len(s) /\ s[i + 1] = LF)

(* Reference folder used by the encoder of the specification.                *)
FoldStep(st, g, wrap) ==
  LET w == OctetLen(g) IN
  IF st.len + w > wrap /\ st.len > (IF st.first THEN 0 ELSE 1)
  THEN [out |-> st.out \o CRLF \o <<SP>> \o g, len |-> 1 + w, first |-> FALSE]
  ELSE [out |-> st.out \o g, len |-> st.len + w, first |-> st.first]
FoldLine(gr, wrap) ==
  FoldLeft(LAMBDA st, g : FoldStep(st, g, wrap),
           [out |-> <<>>, len |-> 0, first |-> TRUE], gr).out

(* Prefix sums of grapheme lengths: positions where a fold may be.           *)
Boundaries(gr) ==
  FoldLeft(LAMBDA st, g : [n |-> st.n + Len(g), set |-> st.set \cup {st.n + Len(g)}],
           [n |-> 0, set |-> {0}], gr).set

(* The physical lines of one content line: first as is, the others with the  *)
(* leading space removed.  Every cut lies between two user-perceived         *)
(* characters, and each line fits or holds a single one.                     *)
FoldedOk(phys, gr, wrap) ==
  LET body == TLCEval([k \in 1..Len(phys) |-> IF k = 1 THEN phys[1] ELSE Tail(phys[k])])
      whole == FlattenSeq(body)
      bounds == Boundaries(gr)
      ends == FoldLeft(LAMBDA acc, b : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + Len(b)),
                       <<>>, body)
  IN /\ \A k \in 2..Len(phys) : phys[k] # <<>> /\ phys[k][1] = SP
     /\ whole = FlattenSeq(gr)
     /\ \A k \in DOMAIN ends : ends[k] \in bounds
     /\ \A k \in DOMAIN phys :
          \/ OctetLen(phys[k]) <= wrap
          \/ \* a single oversized character
             LET lo == IF k = 1 THEN 0 ELSE ends[k - 1]
             IN Cardinality({b \in bounds : b > lo /\ b <= ends[k]}) = 1
=============================================================================
