---------------------------- MODULE ContentLine ----------------------------
(* One unfolded content line: [group "."] name *(";" param) ":" value        *)
(* (RFC 6350 section 3.3).  Property(t, cfg) is what the line adds to a   *)
(* card: [st, p] with st "ok", "err" or "any".  cfg is [strict, tags, mime]:  *)
(* how VALUE is enforced, and which optional well-formedness rules apply.     *)
(*                                                                           *)
(* A property is                                                             *)
(*   s  slot of the card            g  <<>> or <<group>>                     *)
(*   n  name as written (private)   p  parameters in canonical order         *)
(*   t  value type                  x  value: a sequence of texts            *)
EXTENDS Schema

NoProp == [s |-> "", g |-> <<>>, n |-> <<>>, p |-> <<>>, t |-> "", x |-> <<>>]
LErr == [st |-> "err", p |-> NoProp]
LAny == [st |-> "any", p |-> NoProp]

(***************************************************************************)
(* Name and group.                                                           *)
(***************************************************************************)
NameEnd(t) ==
  LET e == IF t = <<>> THEN 0
           ELSE SelectInSeq(t, LAMBDA c : ~(IsNameChar(c) \/ c = DOT))
  IN IF e = 0 THEN Len(t) + 1 ELSE e

(***************************************************************************)
(* Parameter values.  ParamValue(t, j) reads the value at j:                 *)
(* [st, v, raw, q, next] where next is the index of the delimiter behind it. *)
(***************************************************************************)
PVErr == [st |-> "err", v |-> <<>>, raw |-> <<>>, q |-> FALSE, next |-> 0]
(* First ":" or unescaped ";" at or after j, or 0. *)
DelimStep(st, c) ==
  IF st.at # 0 THEN st
  ELSE IF c = COLON \/ (c = SEMI /\ ~st.esc) THEN [st EXCEPT !.at = st.i]
  ELSE [i |-> st.i + 1, esc |-> c = BSL /\ ~st.esc, at |-> 0]
DelimAt(t, j) ==
  IF j > Len(t) THEN 0
  ELSE FoldLeft(DelimStep, [i |-> j, esc |-> FALSE, at |-> 0], From(t, j)).at
ParamValue(t, j) ==
  IF j <= Len(t) /\ t[j] = DQ
  THEN LET k == FindC(t, j + 1, DQ) IN
       IF k = 0 \/ k + 1 > Len(t) THEN PVErr
       ELSE LET raw == SubSeq(t, j + 1, k - 1) IN
            IF t[k + 1] \notin {COLON, SEMI} \/ HasControl(raw) THEN PVErr
            ELSE [st |-> "ok", v |-> Unescape(raw), raw |-> raw, q |-> TRUE, next |-> k + 1]
  ELSE LET d == DelimAt(t, j) IN
       IF d = 0 THEN PVErr
       ELSE LET raw == SubSeq(t, j, d - 1) IN
            IF HasControl(raw) \/ FindC(raw, 1, DQ) # 0 THEN PVErr
            ELSE [st |-> "ok", v |-> Unescape(raw), raw |-> raw, q |-> FALSE, next |-> d]

(***************************************************************************)
(* Parameters: P maps each name to <<>> or <<values>>; X holds the private   *)
(* ones in document order.                                                   *)
(***************************************************************************)
NoParams == [st |-> "ok", next |-> 0,
             P |-> [n \in ParamNames |-> <<>>], X |-> <<>>]
Set(acc, name, vals) == [acc EXCEPT !.P[name] = <<vals>>]
Fail(acc) == [acc EXCEPT !.st = "err"]
With(acc, st, acc2) == IF st = "ok" THEN acc2 ELSE [acc EXCEPT !.st = Worst(@, st)]
(* A comma that was escaped in a list: left open. *)
EscapedComma(raw) == \E i \in 1..(Len(raw) - 1) : raw[i] = BSL /\ raw[i + 1] = COMMA
ListVals(pv, Item(_)) ==
  LET parts == SplitC(pv.v, COMMA)
      rs == TLCEval([k \in DOMAIN parts |-> Item(parts[k])])
      st == WorstOf([k \in DOMAIN rs |-> rs[k].st])
  IN [st |-> IF EscapedComma(pv.raw) THEN "any" ELSE st,
      v |-> IF st = "ok" THEN TLCEval([k \in DOMAIN rs |-> rs[k].v]) ELSE <<>>]

ApplyParam(acc0, slot, written, pv, cfg) ==
  LET name == ParamFor(written)
      acc == [acc0 EXCEPT !.st = Worst(@, pv.st)]
      Private1 ==
        LET l == ListVals(pv, LAMBDA x : Ok(x)) IN
        With(acc, l.st, [acc EXCEPT !.X = Append(@, [k |-> "X-", v |-> <<written>> \o l.v])])
  IN CASE name = "LANGUAGE"  ->
            LET l == LanguageTag(pv.v, cfg) IN With(acc, l.st, Set(acc, name, <<l.v>>))
       [] name = "ALTID"     -> Set(acc, name, <<pv.v>>)
       [] name = "MEDIATYPE" ->
            LET m == MediaType(pv.v, cfg) IN With(acc, m.st, Set(acc, name, <<m.v>>))
       [] name = "CALSCALE"  -> Set(acc, name, <<pv.v>>)
       [] name = "VALUE" ->
            LET v == ValueTypeOf(pv.v) IN
            IF v.st = "err" /\ ~cfg.strict THEN acc ELSE With(acc, v.st, Set(acc, name, <<v.v>>))
       [] name = "PREF" -> LET v == Pref(pv.v) IN With(acc, v.st, Set(acc, name, <<v.v>>))
       [] name = "PID"  -> LET l == ListVals(pv, Pid) IN With(acc, l.st, Set(acc, name, l.v))
       [] name = "TYPE" ->
            LET l == ListVals(pv, TypeOf)
                old == IF acc.P[name] = <<>> THEN <<>> ELSE acc.P[name][1]
            IN IF slot \notin TypeAllowed THEN Fail(acc)
               ELSE With(acc, l.st, Set(acc, name, old \o l.v))
       [] name = "SORT-AS" ->
            LET l == ListVals(pv, LAMBDA x : Ok(x)) IN With(acc, l.st, Set(acc, name, l.v))
       [] name = "GEO" ->
            LET u == Uri(pv.v) IN
            IF ~pv.q THEN Fail(acc) ELSE With(acc, u.st, Set(acc, name, <<u.v>>))
       [] name = "TZ" ->
            IF pv.q
            THEN LET u == Uri(pv.v) IN With(acc, u.st, Set(acc, name, <<S("uri"), u.v>>))
            ELSE LET o == Offset(pv.v) IN
                 IF o.st = "any" THEN [acc EXCEPT !.st = Worst(@, "any")]
                 ELSE Set(acc, name, IF o.st = "ok" THEN <<S("offset"), o.v>>
                                     ELSE <<S("text"), pv.v>>)
       [] name = "LABEL" -> IF slot # "ADR" THEN Fail(acc) ELSE Set(acc, name, <<pv.v>>)
       [] name = "CHARSET" -> IF pv.v = S("UTF-8") THEN acc ELSE Fail(acc)
       [] name = "ENCODING" -> Private1
       [] name = Private -> Private1
       [] OTHER -> Fail(acc)

(* Parameters from index i (behind a ";") up to the ":" before the value.   *)
RECURSIVE Params(_, _, _, _, _)
Params(t, i, slot, cfg, acc) ==
  LET e == IF i > Len(t) THEN 0 ELSE SelectInSubSeq(t, i, Len(t), LAMBDA c : ~IsNameChar(c)) IN
  IF e = 0 \/ (e = i /\ t[e] \notin {KELVIN, LONG_S}) THEN Fail(acc)
  \* letters that only look like ASCII ones are left open
  ELSE IF t[e] \in {KELVIN, LONG_S} THEN [acc EXCEPT !.st = Worst(@, "any")]
  ELSE IF t[e] # EQUALS THEN Fail(acc)
  ELSE LET pv == ParamValue(t, e + 1) IN
       IF pv.st = "err" THEN Fail(acc)
       ELSE LET nxt == ApplyParam(acc, slot, SubSeq(t, i, e - 1), pv, cfg) IN
            IF nxt.st = "err" THEN nxt
            ELSE IF t[pv.next] = COLON THEN [nxt EXCEPT !.next = pv.next]
            ELSE Params(t, pv.next + 1, slot, cfg, nxt)

ParamList(acc) ==
  FoldLeft(LAMBDA out, n : IF acc.P[n] = <<>> THEN out ELSE Append(out, [k |-> n, v |-> acc.P[n][1]]),
           <<>>, ParamOrder) \o acc.X

(***************************************************************************)
(* Values.  raw is the text behind the ":"; vt is "" or the VALUE type.      *)
(***************************************************************************)
V(st, t, x) == [st |-> st, t |-> t, x |-> x]
One(r, t) == V(r.st, t, IF r.st = "ok" THEN <<r.v>> ELSE <<>>)
Many(r, t) == V(r.st, t, r.v)
Bad == V("err", "", <<>>)
Open == V("any", "", <<>>)

TextOrUri(val) ==
  LET u == Uri(val) IN
  IF u.st = "ok" THEN V("ok", "uri", <<u.v>>)
  ELSE IF u.st = "err" THEN V("ok", "text", <<val>>) ELSE Open

GenderValue(raw, val) ==
  LET semi == FindC(val, 1, SEMI)
      cuts == Cuts(raw, SEMI)
      sexRaw == IF cuts = <<>> THEN raw ELSE SubSeq(raw, 1, cuts[1] - 1)
      sex == IF semi = 0 THEN val ELSE SubSeq(val, 1, semi - 1)
      s == SexValue(sex)
  IN IF Unescape(sexRaw) # sex THEN Open
     ELSE V(s.st, "gender", IF semi = 0 THEN <<sex>> ELSE <<sex, From(val, semi + 1)>>)

AddressValue(raw) ==
  LET parts == SplitRawN(raw, SEMI, 7) IN
  IF Len(parts) < 7 THEN Bad
  ELSE V("ok", "adr", TLCEval([k \in 1..7 |-> Unescape(parts[k])]))

PidMapValue(raw, val) ==
  LET semi == FindC(val, 1, SEMI)
      n == Unsigned(SubSeq(val, 1, semi - 1), MaxU64)
      u == Uri(From(val, semi + 1))
      st == Worst(n.st, u.st)
  IN IF semi = 0 THEN Bad
     ELSE IF FindC(raw, 1, BSL) # 0 THEN Open
     ELSE IF n.st = "ok" /\ n.v = <<48>> THEN Bad
     ELSE V(st, "pidmap", IF st = "ok" THEN <<n.v, u.v>> ELSE <<>>)

Vt == [text |-> S("text"), uri |-> S("uri"), date |-> S("date"), time |-> S("time"),
       dateTime |-> S("date-time"), dt |-> S("date-and-or-time"), ts |-> S("timestamp"),
       bool |-> S("boolean"), int |-> S("integer"), float |-> S("float"),
       offset |-> S("utc-offset"), lang |-> S("language-tag")]

(* Values that are lists of items without escapes: a backslash is left open. *)
NoEscapes(raw, v) == IF FindC(raw, 1, BSL) # 0 THEN Open ELSE v

PrivateValue(vt, raw, val, cfg) ==
  CASE vt = <<>> \/ vt = Vt.text -> V("ok", "text", <<val>>)
    [] vt = Vt.int      -> NoEscapes(raw, Many(ListOf(val, Integer), "integer"))
    [] vt = Vt.float    -> NoEscapes(raw, Many(ListOf(val, Float), "float"))
    [] vt = Vt.bool     -> One(Boolean(val), "boolean")
    [] vt = Vt.date     -> NoEscapes(raw, Many(ListOf(val, Date), "date"))
    [] vt = Vt.dateTime -> NoEscapes(raw, Many(ListOf(val, DateTime), "date-time"))
    [] vt = Vt.time     -> NoEscapes(raw, Many(ListOf(val, Time), "time"))
    [] vt = Vt.dt       -> NoEscapes(raw, Many(ListOf(val, DateAndOrTime), "dt"))
    [] vt = Vt.ts       -> NoEscapes(raw, Many(ListOf(val, Timestamp), "timestamp"))
    [] vt = Vt.lang     -> One(LanguageTag(val, cfg), "lang")
    [] vt = Vt.offset   -> One(Offset(val), "offset")
    [] vt = Vt.uri      -> One(Uri(val), "uri")
    [] OTHER -> Bad

Value(slot, vt, raw, cfg) ==
  LET val == Unescape(raw)
      holds == HoldsOf(slot)
  IN
  IF HasControl(raw) THEN Bad
  ELSE CASE holds = "text"   -> V("ok", "text", <<val>>)
         [] holds = "uri"    -> One(Uri(val), "uri")
         [] holds = "lang"   -> One(LanguageTag(val, cfg), "lang")
         [] holds = "kind"   -> One(KindValue(val), "kind")
         [] holds = "gender" -> GenderValue(raw, val)
         [] holds = "adr"    -> AddressValue(raw)
         [] holds = "list;"  -> V("ok", "list;", Components(raw, SEMI))
         [] holds = "list,"  -> V("ok", "list,", Components(raw, COMMA))
         [] holds = "pidmap" -> PidMapValue(raw, val)
         [] holds = "ts"     -> NoEscapes(raw, One(Timestamp(val), "ts"))
         [] holds = "texturi" ->
              IF vt = Vt.text THEN V("ok", "text", <<val>>)
              ELSE IF vt = Vt.uri THEN One(Uri(val), "uri")
              ELSE IF vt = <<>> THEN TextOrUri(val) ELSE Bad
         [] holds = "photo" ->
              IF vt = Vt.text THEN V("ok", "text", <<val>>)
              ELSE IF vt = Vt.uri
                   THEN LET u == Uri(val) IN IF u.st = "ok" THEN One(u, "uri") ELSE Open
              ELSE IF vt = <<>> THEN TextOrUri(val) ELSE Open
         [] holds = "dt" ->
              IF vt = Vt.text THEN V("ok", "text", <<val>>)
              ELSE IF vt \in {<<>>, Vt.dt}
                   THEN NoEscapes(raw, Many(ListOf(val, DateAndOrTime), "dt"))
              ELSE Bad
         [] holds = "tz" ->
              IF vt \in {<<>>, Vt.text} THEN V("ok", "text", <<val>>)
              ELSE IF vt = Vt.offset THEN One(Offset(val), "offset")
              ELSE IF vt = Vt.uri THEN One(Uri(val), "uri")
              ELSE Bad
         [] OTHER -> PrivateValue(vt, raw, val, cfg)

(***************************************************************************)
(* The line.                                                                 *)
(***************************************************************************)
PropertyOf(t, cfg) ==
  LET e == NameEnd(t)
      full == SubSeq(t, 1, e - 1)
      dot == FindC(full, 1, DOT)
      grp == SubSeq(full, 1, dot - 1)
      name == From(full, dot + 1)
      slot == SlotFor(name)
      \* letters that only look like ASCII ones are left open
      odd == e <= Len(t) /\ t[e] \in {KELVIN, LONG_S}
  IN IF odd THEN LAny
     ELSE IF slot = "" \/ (dot # 0 /\ grp = <<>>) THEN LErr
     ELSE IF e > Len(t) THEN LErr
     ELSE IF t[e] \notin {COLON, SEMI} THEN LErr
     ELSE LET ps == IF t[e] = SEMI THEN Params(t, e + 1, slot, cfg, NoParams)
                    ELSE [NoParams EXCEPT !.next = e]
          IN IF ps.st = "err" THEN LErr
             ELSE IF ps.next = 0 THEN LAny
             ELSE LET vt == IF ps.P["VALUE"] = <<>> THEN <<>> ELSE ps.P["VALUE"][1][1]
                      raw == From(t, ps.next + 1)
                      v == IF ps.st = "any" THEN [Open EXCEPT !.st = IF HasControl(raw) THEN "err" ELSE "any"]
                           ELSE Value(slot, vt, raw, cfg)
                      st == IF slot = "CLIENTPIDMAP" /\ ps.P["PID"] # <<>> THEN "err"
                            ELSE Worst(ps.st, v.st)
                  IN [st |-> st,
                      p |-> IF st # "ok" THEN NoProp
                            ELSE [s |-> slot, g |-> IF dot = 0 THEN <<>> ELSE <<grp>>,
                                  n |-> IF slot = Private THEN name ELSE <<>>,
                                  p |-> ParamList(ps), t |-> v.t, x |-> v.x]]
(* The operator by which the other modules refer to it; models of a few lines *)
(* replace it by a table.                                                     *)
Property(t, cfg) == PropertyOf(t, cfg)
=============================================================================
