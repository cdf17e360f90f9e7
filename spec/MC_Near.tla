------------------------------- MODULE MC_Near -----------------------------
(* Everything that differs by at most N edits of a character from texts that  *)
(* are right: lines with every parameter (params), lines of every kind        *)
(* (values), small documents (docs), and line breaks and white space in a     *)
(* document (breaks).  What is almost right is either still right, and then   *)
(* the specification says what it means, or an error.  C05, C06, C08, C11.     *)
EXTENDS Catalog

Nl(lines) == FlattenSeq([k \in DOMAIN lines |-> lines[k] \o <<LF>>])
CrNl(lines) == FlattenSeq([k \in DOMAIN lines |-> lines[k] \o <<CR, LF>>])
Minimal == <<S("BEGIN:VCARD"), S("VERSION:4.0"), S("FN:x"), S("END:VCARD")>>
Docs == {
  Nl(Minimal), SubSeq(CrNl(Minimal), 1, 40),
  CrNl(<<S("begin:vcard"), S("version:3.0"), S("g.Fn:x"), S("NOTE:a"), <<TAB, 98>>, S("end:vcard"), <<>>>>) ,
  Nl(<<S("BEGIN:VCARD"), S("VERSION:4.0"), S("KIND:group"), S("MEMBER:urn:a:b"), S("FN:x"), S("END:VCARD")>>)
    \o Nl(Minimal) }
NoteOf(p) == S("NOTE;") \o p \o S(":v")
ParamLines == { NoteOf(p) : p \in {
    S("LANGUAGE=en"), S("LANGUAGE=\"en-GB\""), S("ALTID=1"), S("MEDIATYPE=a/b"), S("CALSCALE=g"), S("PREF=1"), S("PREF=\"100\""),
    S("PID=1.2,3"), S("TYPE=home,x-Y"), S("SORT-AS=\"b,c\""), S("GEO=\"geo:1,2\""), S("TZ=-0530"), S("TZ=\"u:a\""), S("TZ=A/B"),
    S("CHARSET=UTF-8"), S("X-P=q"), S("ENCODING=b"), S("VALUE=text"), S("VALUE=\"uri\""),
    S("ALTID=a\\;b\\n"), S("PREF=9;PREF=8"), S("X-A=b;X-A=c") } }
  \cup { S("TEL;TYPE=fax,text:v"), S("RELATED;TYPE=kin:u:v"), S("ADR;LABEL=l:;;;;;;"), S("PHOTO;ENCODING=b:aGk="), S("X-A;VALUE=integer:7"),
         S("BDAY;VALUE=text:v"), S("CLIENTPIDMAP;ALTID=1:1;u:a") }
ValueLines == {Lines1[k] : k \in DOMAIN Lines1}

EACUTE == 233  EMOJI == 128512
Narrow == {EACUTE, SP, BSL, SEMI, COLON, COMMA, DQ, EQUALS, DASH, 48, 120}
Wide == Narrow \cup {EMOJI, TAB, 1, 127, DOT, 49, 57, 65, PLUS, SLASH, 160, 133, 8232, 65279, 0, CR, 84, 95, 101, LONG_S}
Alpha == TLCEval(
  CASE IOEnv.SET = "breaks" -> {SP, TAB, CR, LF}
    [] IOEnv.SET = "docs" -> {CR, LF, SP, TAB, COLON, EACUTE, DOT, 48, 65279, 0, BSL, SEMI}
    [] IOEnv.WIDTH = "wide" -> Wide
    [] OTHER -> Narrow)
IsDoc == IOEnv.SET \in {"docs", "breaks"}
Seeds == TLCEval(
  CASE IOEnv.SET = "docs" -> Docs
    [] IOEnv.SET = "breaks" ->
         {Nl(Minimal), CrNl(<<S("BEGIN:VCARD"), S("VERSION:4.0"), S("FN:x"), S(" y"), S("END:VCARD")>>)}
    [] IOEnv.SET = "params" -> ParamLines
    [] OTHER -> ValueLines)

Flip(c) == IF IsUpper(c) THEN LowerC(c) ELSE UpperC(c)
Put(t, a, ins, b) == SubSeq(t, 1, a) \o ins \o From(t, b)
Edits(t) ==
  {Put(t, k - 1, <<>>, k + 1) : k \in DOMAIN t}                        \* left out
  \cup {Put(t, k, <<t[k]>>, k + 1) : k \in DOMAIN t}                     \* twice
  \cup {[t EXCEPT ![k] = Flip(@)] : k \in DOMAIN t}                       \* in the other case
  \cup {[t EXCEPT ![k] = t[k + 1], ![k + 1] = t[k]] : k \in 1..(Len(t) - 1)}  \* out of order
  \cup {[t EXCEPT ![k] = c] : k \in DOMAIN t, c \in Alpha}                 \* another
  \cup {Put(t, k, <<c>>, k + 1) : k \in 0..Len(t), c \in Alpha}            \* one more
  \cup (IF IsDoc THEN {SubSeq(t, 1, k) : k \in DOMAIN t} ELSE {})         \* cut off

VARIABLES near_, away_
Init == near_ \in Seeds /\ away_ = 0
Next == away_ < N /\ away_' = away_ + 1 /\ near_' \in Edits(near_)

(* Not a line of its own: see MC_Names. *)
Frame(line) ==
  \/ line = <<>> \/ line[1] \in {SP, TAB} \/ line[Len(line)] = CR
  \/ \E w \in {S("BEGIN"), S("END"), S("VERSION")} : StartsWith(Upper(line), w)

(* What is accepted in the strict mode is the same in the lenient one.         *)
StrictIsStricter ==
  IF IsDoc
  THEN LET a == Decode(near_, Strict) b == Decode(near_, Loose)
       IN a.res = "ok" => b = a
  ELSE LET a == Property(near_, Strict) b == Property(near_, Loose)
       IN a.st = "ok" => b = a
DecodedIsValid ==
  IsDoc => LET a == Decode(near_, Loose) IN \A k \in DOMAIN a.cards : Valid(a.cards[k])

Short(x) == [k \in DOMAIN x |-> [item |-> x[k].item, card |-> x[k].card]]
Emit ==
  IF IsDoc
  THEN \A cfg \in Cfgs :
         LET d == Decode(near_, cfg) IN
         /\ DecodeCase(near_, cfg, d.res, d.cards)
         /\ Case([op |-> "iter", in |-> near_, strict |-> cfg.strict,
                  want |-> [items |-> Short(Items(ContentLines(near_), 0, cfg, <<>>))]])
  ELSE Frame(near_) \/ \A cfg \in Cfgs : LineCase(near_, cfg)
=============================================================================
