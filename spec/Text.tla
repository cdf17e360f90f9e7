-------------------------------- MODULE Text -------------------------------
(* Escaping of text values (RFC 6350 section 3.4) and splitting of          *)
(* structured values at unescaped delimiters.                               *)
EXTENDS Chars

(* Characters that a backslash turns into another character. *)
Escapable == {BSL, 110, 78, COMMA, SEMI}
Meaning(c) == IF c = 110 \/ c = 78 THEN LF ELSE c

(* A reader over the characters: [out, esc] where esc says that an          *)
(* unconsumed backslash precedes.                                           *)
UnescapeStep(st, c) ==
  IF st.esc
  THEN IF c \in Escapable
       THEN [out |-> Append(st.out, Meaning(c)), esc |-> FALSE]
       ELSE [out |-> Append(Append(st.out, BSL), c), esc |-> FALSE]
  ELSE IF c = BSL THEN [st EXCEPT !.esc = TRUE]
       ELSE [st EXCEPT !.out = Append(@, c)]
Unescape(s) ==
  IF FindC(s, 1, BSL) = 0 THEN s
  ELSE LET r == FoldLeft(UnescapeStep, [out |-> <<>>, esc |-> FALSE], s)
       IN IF r.esc THEN Append(r.out, BSL) ELSE r.out

(* The escape applied to text of unstructured values and to components. *)
EscapeC(c, special) ==
  IF c = BSL THEN <<BSL, BSL>>
  ELSE IF c = LF THEN <<BSL, 110>>
  ELSE IF c \in special THEN <<BSL, c>>
  ELSE <<c>>
Escape(s, special) == FoldLeft(LAMBDA acc, c : acc \o EscapeC(c, special), <<>>, s)
EscapeText(s) == Escape(s, {COMMA})
EscapeComponent(s) == Escape(s, {COMMA, SEMI})

(* Positions of the delimiters that are not escaped: a backslash that is not*)
(* itself escaped takes the character after it with it.                     *)
CutStep(st, c, delim) ==
  [i |-> st.i + 1,
   esc |-> c = BSL /\ ~st.esc,
   cuts |-> IF c = delim /\ ~st.esc THEN Append(st.cuts, st.i) ELSE st.cuts]
Cuts(s, delim) ==
  FoldLeft(LAMBDA st, c : CutStep(st, c, delim),
           [i |-> 1, esc |-> FALSE, cuts |-> <<>>], s).cuts
PieceAt(s, cuts, k) ==
  SubSeq(s, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1,
            IF k = Len(cuts) + 1 THEN Len(s) ELSE cuts[k] - 1)
(* Raw pieces between the unescaped delimiters. *)
SplitRaw(s, delim) ==
  LET cuts == Cuts(s, delim)
  IN TLCEval([k \in 1..(Len(cuts) + 1) |-> PieceAt(s, cuts, k)])
(* At most n pieces; the last one keeps its delimiters. *)
SplitRawN(s, delim, n) ==
  LET all == Cuts(s, delim)
      cuts == IF Len(all) > n - 1 THEN SubSeq(all, 1, n - 1) ELSE all
  IN TLCEval([k \in 1..(Len(cuts) + 1) |-> PieceAt(s, cuts, k)])

Components(s, delim) ==
  LET raw == SplitRaw(s, delim) IN TLCEval([k \in DOMAIN raw |-> Unescape(raw[k])])
JoinWith(parts, delim, Esc(_)) ==
  FoldLeft(LAMBDA acc, k : (IF k = 1 THEN acc ELSE Append(acc, delim)) \o Esc(parts[k]),
           <<>>, [k \in 1..Len(parts) |-> k])

HasControl(s) == \E i \in DOMAIN s : IsControl(s[i])
=============================================================================
