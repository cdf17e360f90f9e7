------------------------------- MODULE MC_Text -----------------------------
(* Every text of at most N characters over an alphabet of those that escapes,*)
(* delimiters and quotes are made of, in every position that holds text.      *)
(* C02, C11, C15, C16.                                                        *)
EXTENDS Model

Alphabet == TLCEval(
  CASE IOEnv.SET = "values" -> {BSL, 110, 78, COMMA, SEMI, COLON, 97, SP, DQ}
    [] IOEnv.SET = "wide"   -> {BSL, 110, 78, COMMA, SEMI, COLON, 97, TAB, 1, 127, 133, 233, 8232, 128512, DOT, EQUALS}
    [] IOEnv.SET = "params" -> {BSL, 110, COMMA, SEMI, COLON, 97, SP, DQ, EQUALS}
    [] OTHER                -> {BSL, 110, COMMA, SEMI, COLON, 97, LF, SP, TAB, 233, EQUALS})

VARIABLE str_   \* named so that no bound identifier has the name: TLC would not keep constants
s == str_
Init == str_ = <<>>
Next == Len(s) < N /\ \E c \in Alphabet : str_' = Append(str_, c)

(***************************************************************************)
(* Theorems (C16, C15).                                                      *)
(***************************************************************************)
EscapesAreInverse == Unescape(EscapeText(s)) = s /\ Unescape(EscapeComponent(s)) = s
EscapedTextHasNoBreak == FindC(EscapeText(s), 1, LF) = 0
NothingIsLost == \A d \in {COMMA, SEMI} : JoinWith(SplitRaw(s, d), d, LAMBDA x : x) = s
(* The text cut at every "a" into components.                                *)
Parts == SplitC(s, 97)
ComponentsAreInverse ==
  \A d \in {COMMA, SEMI} : Components(JoinWith(Parts, d, EscapeComponent), d) = Parts
(* Only an unescaped delimiter separates. *)
CutsAreUnescaped ==
  \A d \in {COMMA, SEMI} : \A i \in DOMAIN s :
    LET run == CHOOSE k \in 0..(i - 1) : /\ \A j \in (i - k)..(i - 1) : s[j] = BSL
                                         /\ (k = i - 1 \/ s[i - k - 1] # BSL)
    IN s[i] = d => ((\E k \in DOMAIN Cuts(s, d) : Cuts(s, d)[k] = i) <=> run % 2 = 0)

(***************************************************************************)
(* Cases: lines to decode.                                                   *)
(***************************************************************************)
TextLines == {S("NOTE:") \o s, S("X-A:") \o s, S("PHOTO;VALUE=text:") \o s, S("TZ:") \o s}
ListLines == {S("ORG:") \o s, S("N:") \o s, S("CATEGORIES:") \o s, S("ADR:") \o s \o S(";;b;c;;;d"),
              S("ADR:;;;;;") \o s, S("GENDER:") \o s, S("GENDER:M;") \o s, S("CLIENTPIDMAP:7;urn:") \o s}
Q(x) == <<DQ>> \o x \o <<DQ>>
ParamLines ==
  {S("NOTE;X-P=") \o s \o S(":v"), S("NOTE;X-P=") \o Q(s) \o S(":v"), S("NOTE;SORT-AS=") \o s \o S(":v"),
   S("NOTE;ALTID=") \o s \o S(";PREF=7:v"), S("NOTE;ALTID=") \o Q(s) \o S(";PREF=7:v"),
   S("ADR;LABEL=") \o s \o S(":;;;;;;"), S("ADR;LABEL=") \o Q(s) \o S(";PREF=1:;;;;;;"),
   S("NOTE;TYPE=") \o s \o S(":v"), S("NOTE;TYPE=") \o Q(s) \o S(":v"), S("NOTE;TZ=") \o s \o S(":v"),
   S("NOTE;LANGUAGE=") \o s \o S(":v"), S("NOTE;CALSCALE=") \o Q(s) \o S(":v"), S("NOTE;MEDIATYPE=") \o Q(s) \o S(":v")}
DecodeLines1 == IF IOEnv.SET = "params" THEN ParamLines
                ELSE IF IOEnv.SET \in {"values", "wide"} THEN TextLines \cup ListLines ELSE {}

(***************************************************************************)
(* Cases: cards to encode.  FN is there so that the card may be decoded.      *)
(***************************************************************************)
Fn == Bare("FN", "text", <<S("f")>>)
P(k, v) == <<[k |-> k, v |-> v]>>
With2(p, ps) == [p EXCEPT !.p = ps]
Text1 == P("VALUE", <<S("text")>>)
Cards ==
  LET one == <<s>> two == <<s, S("z")>> rev == <<S("z"), s>> three == <<s, s, <<>>>>
      note == Bare("NOTE", "text", <<S("v")>>)
      quoted == FindC(s, 1, DQ) # 0
      items == FindC(s, 1, COMMA) = 0
  IN {<<Bare("FN", "text", one)>>,
      <<Fn, Bare("N", "list;", two)>>, <<Fn, Bare("N", "list;", <<s, s, s, s, s>>)>>,
      <<Fn, Bare("NICKNAME", "text", one)>>, <<Fn, Bare("ORG", "list;", rev)>>, <<Fn, Bare("ORG", "list;", three)>>,
      <<Fn, Bare("CATEGORIES", "list,", two)>>, <<Fn, Bare("CATEGORIES", "list,", three)>>,
      <<Fn, Bare("ADR", "adr", <<s, <<>>, s, S("b"), <<>>, s, s>>)>>,
      <<Fn, Bare("GENDER", "gender", <<S("F"), s>>)>>, <<Fn, Bare("GENDER", "gender", <<<<>>, s>>)>>,
      <<Fn, With2(Bare("TEL", "text", one), Text1)>>, <<Fn, With2(Bare("BDAY", "text", one), Text1)>>,
      <<Fn, With2(Bare("PHOTO", "text", one), Text1)>>, <<Fn, With2(Bare("UID", "text", one), Text1)>>,
      <<Fn, Bare("TZ", "text", one)>>, <<Fn, Bare("LANG", "lang", one)>>,
      <<Fn, [Bare("X-", "text", one) EXCEPT !.n = S("X-A")]>>,
      <<Bare("XML", "text", one), Fn, Bare("TITLE", "text", one), Bare("ROLE", "text", one), Bare("EMAIL", "text", one), Bare("PRODID", "text", one)>>}
     \cup (IF quoted THEN {} ELSE
      {<<Fn, With2(note, P("ALTID", one))>>, <<Fn, With2(note, P("LANGUAGE", one))>>,
       <<Fn, With2(note, P("CALSCALE", one))>>, <<Fn, With2(note, P("MEDIATYPE", one))>>,
       <<Fn, With2(Bare("ADR", "adr", <<s, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>), P("LABEL", one))>>})
     \cup (IF quoted \/ ~items THEN {} ELSE
      {<<Fn, With2(note, P("SORT-AS", two))>>, <<Fn, With2(note, <<[k |-> "X-", v |-> <<S("X-P")>> \o three]>>)>>,
       <<Fn, With2(note, P("TYPE", <<S("x:") \o S("a") \o s, S("home")>>))>>})

Emit ==
  IF IOEnv.SET = "encode" THEN \A c \in Cards : EncodeCase(c)
  ELSE \A l \in DecodeLines1 : \A cfg \in (IF IOEnv.SET = "wide" THEN {Loose} ELSE {Strict}) : LineCase(l, cfg)
=============================================================================
