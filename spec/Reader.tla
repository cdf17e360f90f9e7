------------------------------- MODULE Reader ------------------------------
(* The decoder as a state machine over content lines.                        *)
(*                                                                           *)
(* A reader state is                                                         *)
(*   mode   "idle"     between cards                                         *)
(*          "begun"    BEGIN read, VERSION expected                          *)
(*          "body"     inside a card                                         *)
(*          "failed"   the document is an error                              *)
(*          "open"     the specification says nothing about this document    *)
(*          "done"     accepted                                              *)
(*   cur    properties of the card being read, in document order             *)
(*   cards  finished cards, each in canonical order                          *)
(* and Kind names the one transition that applies to the next line, so the   *)
(* reader is deterministic and total.                                        *)
EXTENDS Lines, ContentLine

BeginLine == S("BEGIN:VCARD")
EndLine == S("END:VCARD")
VersionLines == {S("VERSION:3.0"), S("VERSION:4.0")}

Start == [mode |-> "idle", cur |-> <<>>, cards |-> <<>>]

(* Canonical order of a card: slot by slot, document order within a slot.    *)
Canonical(props) ==
  FoldLeft(LAMBDA acc, s : acc \o SelectSeq(props, LAMBDA p : p.s = s), <<>>, SlotOrder)

Has(card, slot) == \E k \in DOMAIN card : card[k].s = slot
(* Validity of a card. *)
Valid(card) ==
  /\ Has(card, "FN")
  /\ Has(card, "MEMBER") =>
       \E k \in DOMAIN card : card[k].s = "KIND" /\ card[k].x = <<S("group")>>
(* A property that may not be added because its slot is taken. *)
Taken(card, p) == p.s \in Once /\ Has(card, p.s)

(* The letter that only looks like an S: left open. *)
LooksLike(u) == [i \in 1..Len(u) |-> IF u[i] = LONG_S THEN 83 ELSE u[i]]
Prefixed(u, w) == Len(u) > Len(w) /\ StartsWith(u, w)

(* Name of the transition for a line; Line outcome o is computed once. *)
KindOfLine(rd, line, o, cfg) ==
  LET u == Upper(SubSeq(line.t, 1, IF Len(line.t) < 12 THEN Len(line.t) ELSE 12)) IN
  CASE rd.mode = "idle" ->
         IF line.t = <<>> THEN "SkipBlank"
         ELSE IF u = BeginLine THEN IF line.nl THEN "Begin" ELSE "Unfinished"
         ELSE "BadBegin"
    [] rd.mode = "begun" ->
         IF u \in VersionLines THEN IF line.nl THEN "Version" ELSE "Unfinished"
         ELSE IF LooksLike(u) \in VersionLines THEN "VersionWithText" ELSE "BadVersion"
    [] rd.mode = "body" ->
         IF u = EndLine THEN "End"
         ELSE IF Prefixed(u, EndLine) THEN "EndWithText"
         ELSE IF StartsWith(u, BeginLine) THEN "NestedBegin"
         ELSE IF u \in VersionLines THEN "MisplacedVersion"
         ELSE IF \E v \in VersionLines : Prefixed(u, v) THEN "VersionWithText"
         ELSE IF ~line.nl THEN "Unfinished"
         ELSE IF o.st = "any" THEN "OpenProperty"
         ELSE IF o.st = "ok" /\ ~Taken(rd.cur, o.p) THEN "Accept"
         ELSE IF cfg.strict THEN "Reject" ELSE "Ignore"

Outcome(rd, line, cfg) ==
  IF rd.mode = "body" THEN Property(line.t, cfg) ELSE LErr

Failed(rd) == [mode |-> "failed", cur |-> <<>>, cards |-> <<>>]
Opened(rd) == [mode |-> "open", cur |-> <<>>, cards |-> <<>>]

(* Effect of a transition; checkValid is FALSE for iteration.                *)
Effect(rd, kind, o, checkValid) ==
  CASE kind = "SkipBlank" -> rd
    [] kind = "Begin"   -> [rd EXCEPT !.mode = "begun", !.cur = <<>>]
    [] kind = "Version" -> [rd EXCEPT !.mode = "body"]
    [] kind = "Accept"  -> [rd EXCEPT !.cur = Append(@, o.p)]
    [] kind = "Ignore"  -> rd
    [] kind = "End"     -> IF checkValid /\ ~Valid(rd.cur) THEN Failed(rd)
                           ELSE [mode |-> "idle", cur |-> <<>>,
                                 cards |-> Append(rd.cards, Canonical(rd.cur))]
    [] kind \in {"EndWithText", "VersionWithText", "OpenProperty"} -> Opened(rd)
    [] OTHER -> Failed(rd)

(* End of the text. *)
Finish(rd) ==
  IF rd.mode \in {"failed", "open"} THEN rd
  ELSE IF rd.mode = "idle" /\ rd.cards # <<>> THEN [rd EXCEPT !.mode = "done"]
  ELSE Failed(rd)

Step(rd, line, cfg, checkValid) ==
  IF rd.mode \in {"failed", "open"} THEN rd
  ELSE LET o == Outcome(rd, line, cfg)
       IN Effect(rd, KindOfLine(rd, line, o, cfg), o, checkValid)

(* The whole decoder as a function: [res, cards].                            *)
DecodeLines(lines, cfg) ==
  LET rd == Finish(FoldLeft(LAMBDA r, l : Step(r, l, cfg, TRUE), Start, lines))
  IN [res |-> IF rd.mode = "done" THEN "ok" ELSE IF rd.mode = "open" THEN "any" ELSE "err",
      cards |-> rd.cards]
Decode(s, cfg) == DecodeLines(ContentLines(s), cfg)

(***************************************************************************)
(* Iteration.  NextItem(lines, i, cfg) is what one call of next gives     *)
(* when i lines have been consumed: [item, card, at] with item               *)
(*   "card"   a card; at is behind its END line                              *)
(*   "error"  a failed card; at is at the next BEGIN line after its start    *)
(*   "end"    nothing but blank lines was left                               *)
(*   "open"   the specification says nothing from here on                    *)
(***************************************************************************)
RECURSIVE SkipBlanks(_, _)
SkipBlanks(lines, i) ==
  IF i < Len(lines) /\ lines[i + 1].t = <<>> THEN SkipBlanks(lines, i + 1) ELSE i

NextBeginAfter(lines, k) ==
  LET c == {j \in (k + 1)..Len(lines) : Upper(lines[j].t) = BeginLine}
  IN IF c = {} THEN Len(lines) ELSE (CHOOSE j \in c : \A m \in c : j <= m) - 1

RECURSIVE ReadCard(_, _, _, _)
ReadCard(lines, i, rd, cfg) ==
  IF rd.mode \in {"failed", "open"} \/ rd.cards # <<>> THEN [rd |-> rd, at |-> i]
  ELSE IF i >= Len(lines) THEN [rd |-> Failed(rd), at |-> i]
  ELSE ReadCard(lines, i + 1, Step(rd, lines[i + 1], cfg, FALSE), cfg)

NextItem(lines, i, cfg) ==
  LET b == SkipBlanks(lines, i) IN
  IF b >= Len(lines) THEN [item |-> "end", card |-> <<>>, at |-> Len(lines)]
  ELSE LET r == ReadCard(lines, b, Start, cfg) IN
       IF r.rd.mode = "open" THEN [item |-> "open", card |-> <<>>, at |-> Len(lines)]
       ELSE IF r.rd.mode = "failed"
            THEN [item |-> "error", card |-> <<>>, at |-> NextBeginAfter(lines, b + 1)]
       ELSE [item |-> "card", card |-> r.rd.cards[1], at |-> r.at]

RECURSIVE Items(_, _, _, _)
Items(lines, i, cfg, acc) ==
  LET n == NextItem(lines, i, cfg) IN
  IF n.item \in {"end", "open"} THEN Append(acc, n)
  ELSE Items(lines, n.at, cfg, Append(acc, n))
=============================================================================
