-------------------------------- MODULE Model ------------------------------
(* Common to the bounded models: bounds from the environment, and cases.     *)
(* A case is one behaviour of the specification in the form in which the      *)
(* harness replays it: operation, input, and what comes of it.                *)
EXTENDS Parsers, Photos, Json, IOUtils, CSV

N == atoi(IOEnv.N)
Strict == [strict |-> TRUE, tags |-> FALSE, mime |-> FALSE]
Loose == [strict |-> FALSE, tags |-> FALSE, mime |-> FALSE]
Cfgs == {Strict, Loose}

(* The number of cases is counted in TLC registers, so that none is lost.    *)
(* Workers begin with a copy of what was counted for the initial states.      *)
ASSUME TLCSet(50, 0) /\ TLCSet(51, 0)
Case(c) == LET k == IF TLCGet("level") <= 1 THEN 51 ELSE 50 IN
  TLCSet(k, TLCGet(k) + 1) /\ CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
Emitted == PrintT(<<"CASES", FoldLeft(LAMBDA a, n : a + n, 0, TLCGet("all")[50]) + TLCGet("all")[51][1]>>)
LineCase(line, cfg) ==
  Case([op |-> "line", in |-> line, strict |-> cfg.strict, want |-> Property(line, cfg)])
DecodeCase(text, cfg, res, cards) ==
  Case([op |-> "decode", in |-> text, strict |-> cfg.strict, want |-> [res |-> res, cards |-> cards]])
ValueCase(fn, s) ==
  LET w == ValueOf(fn, s)
  IN Case([op |-> "value", fn |-> fn, in |-> s, want |-> [res |-> w.st, v |-> w.v]])
EncodeCase(card) == Case([op |-> "encode", card |-> card])

(* All sequences over a set up to a length, as a set of states grown one     *)
(* element at a time, is what most models explore: see Grow in each.          *)
Line(text) == [t |-> text, nl |-> TRUE]
=============================================================================
