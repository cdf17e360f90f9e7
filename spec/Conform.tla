------------------------------- MODULE Conform -----------------------------
(* Recorded runs of the implementation, checked against the specification.   *)
(*                                                                           *)
(* Every record of the trace file is one behaviour of this machine:          *)
(*   decode, encode   the Reader consumes the text of the record one content *)
(*                    line per step, by the action that applies to the line  *)
(*   iter             one step per call of the iterator                      *)
(*   build            one step per call of the builder                       *)
(*   all others       a single step                                          *)
(* and the last step compares what the specification reached with what the   *)
(* implementation did.  verdict is "" or says what is wrong.                 *)
(*                                                                           *)
(* PROP (environment) is the property under check: it selects the judgement. *)
EXTENDS Photos, Parsers, Json, IOUtils

PROP == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rec(i) == Trace[i]

VARIABLES ix,       \* the record
          phase,    \* "load", "read", "iter", "build", "judge", "done"
          todo,     \* content lines not yet read, or calls not yet explained
          rd,       \* state of the reader; items or cards explained so far
          next,     \* transition that applies to the next line, with its outcome
          verdict
vars == <<ix, phase, todo, rd, next, verdict>>

(* Action counters are TLC registers; they are no part of the state. *)
ASSUME \A k \in 1..23 : TLCSet(k, 0)
Count(k) == TLCSet(k, TLCGet(k) + 1)
Tally(kind) == Count(CASE kind = "SkipBlank" -> 2 [] kind = "Begin" -> 3 [] kind = "BadBegin" -> 4
  [] kind = "Version" -> 5 [] kind = "BadVersion" -> 6 [] kind = "Accept" -> 7 [] kind = "Reject" -> 8
  [] kind = "Ignore" -> 9 [] kind = "End" -> 10 [] kind = "NestedBegin" -> 11
  [] kind = "MisplacedVersion" -> 12 [] kind = "Unfinished" -> 13 [] kind = "EndWithText" -> 14
  [] kind = "VersionWithText" -> 15 [] kind = "OpenProperty" -> 16
  [] kind = "card" -> 17 [] kind = "error" -> 18 [] kind = "end" -> 19 [] kind = "open" -> 20)

Plain(strict) == [strict |-> strict, tags |-> FALSE, mime |-> FALSE]
CfgOf(r) == IF r.op = "decode" THEN Plain(r.strict) ELSE Plain(TRUE)
(* Cards that validation would refuse are written all the same. *)
CheckValid == PROP # "C22"

NoNext == [kind |-> "", o |-> LErr]
NextOf(r, lines, cfg) ==
  IF lines = <<>> \/ r.mode \in {"failed", "open"} THEN NoNext
  ELSE LET o == Outcome(r, lines[1], cfg)
       IN [kind |-> KindOfLine(r, lines[1], o, cfg), o |-> o]

Init == /\ ix \in DOMAIN Trace
        /\ phase = "load" /\ todo = <<>> /\ rd = Start /\ next = NoNext /\ verdict = ""

(***************************************************************************)
(* Loading a record.                                                         *)
(***************************************************************************)
Reads(r) == (r.op = "decode") \/ (r.op = "encode" /\ r.res = "ok")
Load ==
  /\ phase = "load" /\ Count(1)
  /\ LET r == Rec(ix) IN
     IF Reads(r)
     THEN LET ls == ContentLines(IF r.op = "decode" THEN r.in ELSE r.out)
              n == NextOf(Start, ls, CfgOf(r))
          IN /\ todo' = ls /\ rd' = Start /\ next' = n
             /\ phase' = IF n.kind = "" THEN "judge" ELSE "read"
     ELSE IF r.op = "iter"
     THEN todo' = <<ContentLines(r.in), 0>> /\ rd' = 0 /\ phase' = "iter" /\ UNCHANGED next
     ELSE IF r.op = "build"
     THEN todo' = Built(r.first) /\ rd' = 0 /\ phase' = "build" /\ UNCHANGED next
     ELSE phase' = "judge" /\ UNCHANGED <<todo, rd, next>>
  /\ UNCHANGED <<ix, verdict>>

(***************************************************************************)
(* The reader: one action per kind of line.                                  *)
(***************************************************************************)
Advance(kind) ==
  /\ phase = "read" /\ next.kind = kind /\ Tally(kind)
  /\ LET r == Rec(ix)
         rd2 == Effect(rd, kind, next.o, CheckValid)
         ls == Tail(todo)
         n == NextOf(rd2, ls, CfgOf(r))
     IN rd' = rd2 /\ todo' = ls /\ next' = n /\ phase' = IF n.kind = "" THEN "judge" ELSE "read"
  /\ UNCHANGED <<ix, verdict>>
SkipBlank == Advance("SkipBlank")
Begin == Advance("Begin")
BadBegin == Advance("BadBegin")
Version == Advance("Version")
BadVersion == Advance("BadVersion")
Accept == Advance("Accept")
Reject == Advance("Reject")
Ignore == Advance("Ignore")
End == Advance("End")
NestedBegin == Advance("NestedBegin")
MisplacedVersion == Advance("MisplacedVersion")
Unfinished == Advance("Unfinished")
OpenLine == Advance("EndWithText") \/ Advance("VersionWithText") \/ Advance("OpenProperty")

Read == SkipBlank \/ Begin \/ BadBegin \/ Version \/ BadVersion \/ Accept \/ Reject \/ Ignore
        \/ End \/ NestedBegin \/ MisplacedVersion \/ Unfinished \/ OpenLine

(* What the reader makes of the whole text. *)
Reached ==
  LET f == Finish(rd)
  IN [res |-> IF f.mode = "done" THEN "ok" ELSE IF f.mode = "open" THEN "any" ELSE "err",
      cards |-> IF f.mode = "done" THEN f.cards ELSE <<>>]

(***************************************************************************)
(* The iterator: todo is <<lines, lines consumed>>, rd counts the calls.     *)
(***************************************************************************)
Call(item) ==
  /\ phase = "iter"
  /\ LET r == Rec(ix)
         n == NextItem(todo[1], todo[2], Plain(r.strict))
         got == IF rd + 1 <= Len(r.items) THEN r.items[rd + 1] ELSE [item |-> "missing", card |-> <<>>]
     IN /\ n.item = item /\ Tally(item)
        /\ todo' = [todo EXCEPT ![2] = n.at]
        /\ rd' = rd + 1
        /\ IF n.item = "open" THEN phase' = "done" /\ verdict' = ""
           ELSE IF got.item # n.item
                THEN phase' = "done" /\ verdict' = "call " \o ToString(rd + 1) \o " of the iterator gives "
                                        \o got.item \o " instead of " \o n.item
           ELSE IF n.item = "card" /\ got.card # n.card
                THEN phase' = "done" /\ verdict' = "call " \o ToString(rd + 1) \o " of the iterator gives another card"
           ELSE IF n.item = "end" /\ rd + 1 = Len(r.items)
                THEN phase' = "done" /\ verdict' = ""
           ELSE phase' = "iter" /\ verdict' = ""
  /\ UNCHANGED <<ix, next>>
YieldCard == Call("card")
YieldError == Call("error")
YieldEnd == Call("end")
YieldOpen == Call("open")
Iterate == YieldCard \/ YieldError \/ YieldEnd \/ YieldOpen

(***************************************************************************)
(* The builder: todo is the card, rd counts the calls.                       *)
(***************************************************************************)
BuildCall ==
  /\ phase = "build" /\ Count(21)
  /\ LET r == Rec(ix)
         n == IF rd = 0 THEN [st |-> "ok", card |-> todo] ELSE Apply(todo, r.calls[rd])
         got == r.states[rd + 1]
     IN /\ todo' = n.card
        /\ rd' = rd + 1
        /\ IF n.st = "any" THEN phase' = "done" /\ verdict' = ""
           ELSE IF got # n.card
                THEN phase' = "done" /\ verdict' = IF rd = 0 THEN "a new builder holds another card"
                                                   ELSE "call " \o r.calls[rd].m \o " gives another card"
           ELSE phase' = (IF rd = Len(r.calls) THEN "done" ELSE "build") /\ verdict' = ""
  /\ UNCHANGED <<ix, next>>

(***************************************************************************)
(* Judgements.                                                               *)
(***************************************************************************)
RECURSIVE FirstOf(_)
FirstOf(checks) ==
  IF checks = <<>> THEN ""
  ELSE IF ~checks[1][1] THEN checks[1][2] ELSE FirstOf(Tail(checks))

(* res and cards against the outcome the specification reached *)
SameOutcome(got, want) ==
  IF want.res = "any" THEN ""
  ELSE IF got.res # want.res THEN "outcome is " \o got.res \o " instead of " \o want.res
  ELSE IF want.res = "ok" /\ got.cards # want.cards THEN "decoded to other cards" ELSE ""

JudgeDecode(r) == SameOutcome(r, Reached)

(* Order of the properties within each slot as written. *)
WrittenFrame(out) ==
  LET ls == ContentLines(out) n == Len(ls) IN
  /\ n >= 3 /\ ls[1].t = BeginLine /\ ls[2].t = S("VERSION:4.0") /\ ls[n].t = EndLine
(* One content line after another as physical lines, against the graphemes.  *)
FoldsOk(r) ==
  LET phys == PhysicalLines(r.out)
      starts == SelectSeq([k \in 1..Len(phys) |-> k], LAMBDA k : ~(phys[k] # <<>> /\ phys[k][1] \in {SP, TAB}))
      Group(j) == SubSeq(phys, starts[j], IF j = Len(starts) THEN Len(phys) ELSE starts[j + 1] - 1)
  IN /\ Len(starts) = Len(r.gr)
     /\ \A j \in DOMAIN r.gr : FoldedOk(Group(j), r.gr[j], MaxOctets)
NoControls(out) == \A i \in DOMAIN out : ~IsControl(out[i]) \/ out[i] \in {CR, LF}

SpecReads(r) == Reached.res = "any" \/ (Reached.res = "ok" /\ Reached.cards = <<r.card>>)
JudgeEncode(r) ==
  LET must(ps) == PROP \in ps IN
  IF r.res # "ok" THEN "encoding panics"
  ELSE FirstOf(<<
    <<must({"C03", "C22"}) => AllCRLF(r.out), "a line does not end in CRLF">>,
    <<must({"C22"}) => WrittenFrame(r.out), "the document is not framed by BEGIN, VERSION and END">>,
    <<must({"C22"}) => Len(ContentLines(r.out)) = Len(r.card) + 3, "the number of content lines is not that of the properties">>,
    <<must({"C16", "C22"}) => NoControls(r.out), "a control character is written">>,
    <<must({"C03"}) => FoldsOk(r), "a line is folded wrongly">>,
    <<must({"C01", "C02", "C14", "C15", "C16"}) =>
        r.back.res = "ok" /\ r.back.cards = <<r.card>> /\ r.eq, "does not decode back to an equal card">>,
    <<(must({"C01", "C02", "C15", "C16", "C22"}) \/ (must({"C03"}) /\ r.reads)) => SpecReads(r),
        "what is written does not denote the card">>,
    <<must({"C14"}) => Reached.res = "ok" /\ Reached.cards = <<r.card>>, "what is written does not denote the value">> >>)

(* Foldings of one text. *)
JudgeSame(r) ==
  LET base == ContentLines(r.in) IN
  IF \E k \in DOMAIN r.variants : ContentLines(r.variants[k].in) # base
  THEN "tool: a variant has other content lines"
  ELSE IF \E k \in DOMAIN r.variants : r.variants[k].res # r.res \/ ~r.variants[k].eq
  THEN "another folding or line ending gives another outcome"
  ELSE IF \E k \in DOMAIN r.variants : ~r.variants[k].iter
  THEN "another folding or line ending gives another iteration" ELSE ""

(* Concatenation. *)
Blank(s) == \A k \in DOMAIN ContentLines(s) : ContentLines(s)[k].t = <<>>
JudgeConcat(r) ==
  LET n == Len(r.parts)
      bad == {k \in 1..n : r.parts[k].res # "ok"}
      cards == FlattenSeq([k \in 1..n |-> r.parts[k].cards])
      open == \E k \in 1..n : Decode(r.parts[k].in, Plain(r.strict)).res = "any"
  IN IF ~r.repeat THEN "decoding the same text again gives another outcome"
     ELSE IF open THEN ""
     ELSE IF bad = {} /\ r.all.res # "ok" THEN "accepted documents are not accepted one after the other"
     ELSE IF bad = {} /\ r.all.cards # cards THEN "the cards are not those of the parts"
     ELSE IF Cardinality(bad) = 1 /\ r.all.res = "ok"
             /\ ~(\E k \in bad : Blank(r.parts[k].in)) THEN "a rejected part is accepted in a whole"
     ELSE ""

JudgeDrop(r) ==
  LET priv == {r.private[k].id : k \in DOMAIN r.private}
      left == priv \cap {r.dirty[k] : k \in DOMAIN r.dirty}
  IN IF r.freed = 0 /\ priv # {} THEN "tool: nothing was freed"
     ELSE IF left # {} THEN "text is left in freed memory: " \o
            (LET k == CHOOSE k \in DOMAIN r.private : r.private[k].id \in left IN r.private[k].at)
     ELSE ""

JudgePhoto(r) ==
  LET w == ExtractedPhotos(r.card) IN
  IF w.st = "any" THEN ""
  ELSE IF r.res # w.st THEN "extraction is " \o r.res \o " instead of " \o w.st
  ELSE IF r.res = "ok" /\ r.bytes # w.v THEN "other bytes are extracted" ELSE ""

JudgeValidate(r) ==
  LET w == IF Valid(r.card) THEN "ok" ELSE "err"
  IN IF r.res # w THEN "validation is " \o r.res \o " instead of " \o w ELSE ""

(* Public value parsers. *)
SameValue(r, w) ==
  IF w.st = "any" THEN ""
  ELSE IF r.res # w.st THEN r.fn \o " is " \o r.res \o " instead of " \o w.st
  ELSE IF w.st = "ok" /\ r.v # w.v THEN r.fn \o " reads another value" ELSE ""
JudgeValue(r) == SameValue(r, ValueOf(r.fn, r.in))

(* A value written as text denotes that value. *)
JudgePrint(r) ==
  IF r.res # "ok" THEN r.fn \o " panics"
  ELSE LET w == Shown(r.fn, r.out) IN
       \* Fractions of a second are beyond the standard and may be lost.
       IF r.fn \in {"DateAndOrTime", "DateTime"} /\ \E i \in DOMAIN r.v : \E j \in DOMAIN r.v[i] : r.v[i][j] = DOT THEN ""
       ELSE IF w.st # "any" /\ (w.st # "ok" \/ w.v # r.v) THEN r.fn \o " writes another value" ELSE ""

(* A card from text is the first one the iterator yields. *)
JudgeFirst(r) ==
  LET n == NextItem(ContentLines(r.in), 0, Plain(TRUE)) IN
  IF n.item = "open" THEN ""
  ELSE IF n.item # "card" THEN IF r.res = "err" THEN "" ELSE "outcome is " \o r.res \o " instead of err"
  ELSE IF r.res # "ok" THEN "outcome is " \o r.res \o " instead of ok"
  ELSE IF r.card # n.card THEN "another card" ELSE ""

JudgeShow(r) ==
  IF r.res # "ok" THEN r.fn \o " panics"
  ELSE IF CASE r.fn = "show DateAndOrTime" -> DateAndOrTime(r.out) = Ok(r.in)
            [] r.fn = "show UtcOffsetProperty" -> Offset(r.out) = Ok(r.in)
            [] r.fn = "show Date" -> r.out = DashDate(r.in)
            [] r.fn = "show DateTime" -> r.out = Rfc3339(r.in)
       THEN "" ELSE r.fn \o " writes another value"

JudgeSerde(r) ==
  IF r.res # "ok" THEN "serialization is " \o r.res
  ELSE IF r.back # r.card \/ ~r.eq THEN "JSON text gives another card"
  ELSE IF r.back2 # r.card \/ ~r.eq2 THEN "a JSON value gives another card" ELSE ""

(* The same document in builds with different features. *)
JudgeConfigs(r) ==
  LET n == Len(r.runs)
      Cfg(k) == [strict |-> r.strict, tags |-> r.runs[k].tags, mime |-> r.runs[k].mime]
      ls == ContentLines(r.in)
      cfgs == {Cfg(k) : k \in 1..n}
      want == TLCEval([c \in cfgs |-> DecodeLines(ls, c)])
      same(a, b) == r.runs[a].res = r.runs[b].res /\ r.runs[a].cards = r.runs[b].cards /\ r.runs[a].outs = r.runs[b].outs
      full == [strict |-> r.strict, tags |-> TRUE, mime |-> TRUE]
      none == [strict |-> r.strict, tags |-> FALSE, mime |-> FALSE]
      bad == {k \in 1..n : SameOutcome(r.runs[k], want[Cfg(k)]) # ""}
  IN IF \E a, b \in 1..n : Cfg(a) = Cfg(b) /\ ~same(a, b) THEN "features that parse nothing change the outcome"
     ELSE IF {full, none} \subseteq cfgs /\ want[full].res = "ok" /\ want[full] = want[none] /\ \E a, b \in 1..n : ~same(a, b)
          THEN "features change the outcome of a well-formed document"
     ELSE IF bad # {} THEN "with other features the " \o SameOutcome(r.runs[CHOOSE k \in bad : TRUE], want[Cfg(CHOOSE k \in bad : TRUE)])
     ELSE ""

Judgement(r) ==
  CASE r.op = "decode"   -> JudgeDecode(r)
    [] r.op = "encode"   -> JudgeEncode(r)
    [] r.op = "same"     -> JudgeSame(r)
    [] r.op = "concat"   -> JudgeConcat(r)
    [] r.op = "drop"     -> JudgeDrop(r)
    [] r.op = "photo"    -> JudgePhoto(r)
    [] r.op = "validate" -> JudgeValidate(r)
    [] r.op = "value"    -> JudgeValue(r)
    [] r.op = "show"     -> JudgeShow(r)
    [] r.op = "print"    -> JudgePrint(r)
    [] r.op = "first"    -> JudgeFirst(r)
    [] r.op = "serde"    -> JudgeSerde(r)
    [] r.op = "configs"  -> JudgeConfigs(r)
    [] r.op = "total"    -> IF r.res \in {"ok", "err"} THEN "" ELSE r.fn \o " is " \o r.res
Judge ==
  /\ phase = "judge" /\ Count(22)
  /\ phase' = "done" /\ verdict' = Judgement(Rec(ix))
  /\ UNCHANGED <<ix, todo, rd, next>>

Next == Load \/ Read \/ Iterate \/ BuildCall \/ Judge
Spec == Init /\ [][Next]_vars

(* Every record is explained.  With -continue TLC goes on behind a violation,*)
(* and the printed line names the record.                                    *)
Conforms == /\ phase = "done" => Count(23)
            /\ verdict = "" \/ PrintT(<<"REJECT", ix, verdict>>)

(* How often each action was taken; every record must end in a judgement.     *)
Counted == <<"Load", "SkipBlank", "Begin", "BadBegin", "Version", "BadVersion", "Accept", "Reject",
  "Ignore", "End", "NestedBegin", "MisplacedVersion", "Unfinished", "EndWithText", "VersionWithText",
  "OpenProperty", "YieldCard", "YieldError", "YieldEnd", "YieldOpen", "BuildCall", "Judge", "done">>
Total(k) == FoldLeft(LAMBDA a, n : a + n, 0, TLCGet("all")[k])
Report == \A k \in DOMAIN Counted : PrintT(<<"COUNT", Counted[k], Total(k)>>)
=============================================================================
