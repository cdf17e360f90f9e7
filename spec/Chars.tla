------------------------------- MODULE Chars -------------------------------
(* Text is a sequence of Unicode code points.  This module names the code   *)
(* points that matter and gives the character classes and the elementary    *)
(* searches on which every other module is built.                           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

TAB == 9   LF == 10   CR == 13   SP == 32   DQ == 34
PLUS == 43   COMMA == 44   DASH == 45   DOT == 46   SLASH == 47
COLON == 58   SEMI == 59   EQUALS == 61   BSL == 92
KELVIN == 8490   LONG_S == 383   DOTTED_I == 304

(* String literals of the specification as code point sequences. *)
Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[" 
Printable2 == "\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code ==
  LET one == [k \in 1..Len(Printable) |-> SubSeq(Printable, k, k)]
      two == [k \in 1..Len(Printable2) |-> SubSeq(Printable2, k, k)]
      cp1 == [k \in 1..Len(Printable) |-> IF k <= 2 THEN 31 + k ELSE 32 + k]
      cp2 == [k \in 1..Len(Printable2) |-> 91 + k]
  IN TLCEval([c \in {one[k] : k \in DOMAIN one} \cup {two[k] : k \in DOMAIN two} \cup {"\""} |->
       IF c = "\"" THEN DQ ELSE
       IF \E k \in DOMAIN one : one[k] = c
       THEN cp1[CHOOSE k \in DOMAIN one : one[k] = c]
       ELSE cp2[CHOOSE k \in DOMAIN two : two[k] = c]])
(* S("abc") = <<97, 98, 99>> *)
S(str) == TLCEval([i \in 1..Len(str) |-> Code[SubSeq(str, i, i)]])

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
(* Characters of property names, groups and parameter names. *)
IsNameChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c = DASH
(* Control characters; the tab counts as white space. *)
IsControl(c) == (c < 32 /\ c # TAB) \/ c = 127

UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(s) == TLCEval([i \in 1..Len(s) |-> UpperC(s[i])])
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerC(s[i])])

(* First index in from..Len(s) whose character is in set C, or 0. *)
FindIn(s, from, C) ==
  IF from > Len(s) THEN 0 ELSE SelectInSubSeq(s, from, Len(s), LAMBDA c : c \in C)
FindC(s, from, ch) ==
  IF from > Len(s) THEN 0 ELSE SelectInSubSeq(s, from, Len(s), LAMBDA c : c = ch)

From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])

(* Split at every occurrence of one character: always at least one piece. *)
SplitC(s, ch) ==
  LET cuts == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = ch)
      n == Len(cuts)
  IN TLCEval([k \in 1..(n + 1) |->
       SubSeq(s, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1,
                 IF k = n + 1 THEN Len(s) ELSE cuts[k] - 1)])

(* Numbers are handled as digit texts so that no size limit applies. *)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
RECURSIVE StripTrailingZeros(_)
StripTrailingZeros(d) ==
  IF d # <<>> /\ d[Len(d)] = 48 THEN StripTrailingZeros(SubSeq(d, 1, Len(d) - 1)) ELSE d
(* a <= b for canonical digit texts *)
LeqDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
(* Value of a short digit text *)
Num(d) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, d)
(* n as exactly w digits *)
RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN <<>> ELSE Append(Digits(n \div 10, w - 1), 48 + (n % 10))

(* Number of octets of a code point, and of a text, in UTF-8. *)
Octets(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
OctetLen(s) == FoldLeft(LAMBDA acc, c : acc + Octets(c), 0, s)

(* Three-valued results: "ok", "err", or "any" where the specification      *)
(* deliberately leaves the outcome open.                                    *)
Worst(a, b) == IF a = "err" \/ b = "err" THEN "err"
               ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
WorstOf(sts) == FoldLeft(Worst, "ok", sts)
=============================================================================
