------------------------------- MODULE Values ------------------------------
(* Single values other than text and time: URIs, numbers, booleans, and the *)
(* small vocabularies.  Results are [st, v] as in Temporal.                  *)
EXTENDS Text, Temporal

(***************************************************************************)
(* URI (RFC 3986).  The recognizer is exact on the forms it calls "ok" and   *)
(* "err"; rare forms (IP literals, empty ports, ...) are "any".  The value   *)
(* of a URI is its text with the scheme in lower case and with "/" for an    *)
(* empty path behind an authority.                                           *)
(***************************************************************************)
SubDelims == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
Unreserved(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46, 95, 126}
PChar(c) == Unreserved(c) \/ c \in SubDelims \/ c \in {37, 58, 64}
PathChar(c) == PChar(c) \/ c = SLASH
QueryChar(c) == PChar(c) \/ c = SLASH \/ c = 63
HostChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46}
UserChar(c) == Unreserved(c)
PercentOk(s) ==
  \A i \in DOMAIN s : s[i] = 37 => i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2])
AllOf(s, P(_)) == \A i \in DOMAIN s : P(s[i])

SchemeOk(s) == /\ s # <<>> /\ IsAlpha(s[1])
               /\ \A i \in DOMAIN s : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] \in {PLUS, DASH, DOT}

Authority(a) ==
  LET at == FindC(a, 1, 64)
      user == SubSeq(a, 1, at - 1)
      hp == From(a, at + 1)
      co == FindC(hp, 1, COLON)
      host == IF co = 0 THEN hp ELSE SubSeq(hp, 1, co - 1)
      port == IF co = 0 THEN <<>> ELSE From(hp, co + 1)
  IN IF ~(\A i \in DOMAIN a : PChar(a[i]) \/ a[i] \in {91, 93}) THEN "err"
     ELSE IF /\ AllOf(user, UserChar) /\ (at = 0 \/ user # <<>>)
             /\ AllOf(host, HostChar) /\ host # <<>>
             /\ (co = 0 \/ (/\ AllDigits(port) /\ port[1] # 48
                            /\ LeqDigits(port, S("65535"))))
          THEN "ok" ELSE "any"

Uri(s) ==
  LET colon == FindC(s, 1, COLON) IN
  IF colon = 0 THEN Err
  ELSE LET scheme == SubSeq(s, 1, colon - 1)
           rest == From(s, colon + 1)
           hash == FindC(rest, 1, 35)
           nofrag == IF hash = 0 THEN rest ELSE SubSeq(rest, 1, hash - 1)
           frag == IF hash = 0 THEN <<>> ELSE From(rest, hash + 1)
           q == FindC(nofrag, 1, 63)
           hier == IF q = 0 THEN nofrag ELSE SubSeq(nofrag, 1, q - 1)
           query == IF q = 0 THEN <<>> ELSE From(nofrag, q + 1)
           hasAuth == StartsWith(hier, <<SLASH, SLASH>>)
           ps == IF hasAuth THEN FindC(hier, 3, SLASH) ELSE 1
           auth == IF ~hasAuth THEN <<>>
                   ELSE IF ps = 0 THEN From(hier, 3) ELSE SubSeq(hier, 3, ps - 1)
           path == IF ~hasAuth THEN hier ELSE IF ps = 0 THEN <<>> ELSE From(hier, ps)
           tailText == From(rest, Len(hier) + 1)
           body == IF hasAuth /\ path = <<>> THEN hier \o <<SLASH>> \o tailText ELSE rest
           astat == IF ~hasAuth THEN IF path = <<>> THEN "any" ELSE "ok"
                    ELSE IF auth = <<>> THEN IF path = <<>> THEN "any" ELSE "ok"
                    ELSE Authority(auth)
       IN IF ~SchemeOk(scheme) THEN Err
          ELSE IF ~(AllOf(path, PathChar) /\ AllOf(query, QueryChar) /\ AllOf(frag, QueryChar))
               \/ ~(PercentOk(path) /\ PercentOk(query) /\ PercentOk(frag)) \/ astat = "err"
               THEN Err
          ELSE IF astat = "any" THEN Lax
          ELSE Ok(Lower(scheme) \o <<COLON>> \o body)

(***************************************************************************)
(* Numbers as texts.                                                         *)
(***************************************************************************)
MaxI64 == S("9223372036854775807")
MinI64 == S("9223372036854775808")   \* magnitude
MaxU64 == S("18446744073709551615")

Unsigned(s, max) ==
  IF AllDigits(s) THEN LET d == StripZeros(s) IN IF LeqDigits(d, max) THEN Ok(d) ELSE Err
  ELSE IF s # <<>> /\ s[1] = PLUS /\ AllDigits(Tail(s)) THEN Lax ELSE Err

Integer(s) ==
  IF s # <<>> /\ s[1] = DASH /\ AllDigits(Tail(s))
  THEN LET d == StripZeros(Tail(s))
       IN IF ~LeqDigits(d, MinI64) THEN Err
          ELSE Ok(IF d = <<48>> THEN d ELSE <<DASH>> \o d)
  ELSE Unsigned(s, MaxI64)

(* Decimal numbers of at most 15 digits have one reading as a double.        *)
Float(s) ==
  LET neg == s # <<>> /\ s[1] = DASH
      b == IF neg THEN Tail(s) ELSE s
      dot == FindC(b, 1, DOT)
      ip == IF dot = 0 THEN b ELSE SubSeq(b, 1, dot - 1)
      fp == IF dot = 0 THEN <<>> ELSE From(b, dot + 1)
      int == StripZeros(ip)
      frac == StripTrailingZeros(fp)
      zero == int = <<48>> /\ frac = <<>>
  IN IF AllDigits(ip) /\ (dot = 0 \/ AllDigits(fp)) /\ Len(ip) + Len(fp) <= 15
     THEN IF zero /\ neg THEN Lax
          ELSE Ok((IF neg THEN <<DASH>> ELSE <<>>) \o int \o
                  (IF frac = <<>> THEN <<>> ELSE <<DOT>> \o frac))
     ELSE IF OnlyFrom(s, (48..57) \cup {PLUS, DASH, DOT, 69, 101}) /\ s # <<>> THEN Lax
     ELSE Err

Boolean(s) ==
  LET l == Lower(s) IN
  IF l = S("true") \/ l = S("false") THEN Ok(l) ELSE Err

Pref(s) ==
  LET r == Unsigned(s, S("100")) IN
  IF r.st = "ok" /\ r.v = <<48>> THEN Err ELSE r

Pid(s) ==
  LET dot == FindC(s, 1, DOT) IN
  IF dot = 0 THEN Unsigned(s, MaxU64)
  ELSE LET a == Unsigned(SubSeq(s, 1, dot - 1), MaxU64)
           b == Unsigned(From(s, dot + 1), MaxU64)
           st == Worst(a.st, b.st)
       IN [st |-> st, v |-> IF st = "ok" THEN a.v \o <<DOT>> \o b.v ELSE <<>>]

Kinds == {S("individual"), S("group"), S("org"), S("location")}
KindValue(s) == IF s \in Kinds THEN Ok(s) ELSE IF Lower(s) \in Kinds THEN Lax ELSE Err

Sexes == {<<>>, S("M"), S("F"), S("O"), S("N"), S("U")}
SexValue(s) == IF s \in Sexes THEN Ok(s) ELSE IF Upper(s) \in Sexes THEN Lax ELSE Err

(* Value type names of the VALUE parameter. *)
ValueTypes ==
  {S("text"), S("uri"), S("date"), S("time"), S("date-time"), S("date-and-or-time"),
   S("timestamp"), S("boolean"), S("integer"), S("float"), S("utc-offset"), S("language-tag")}
ValueTypeOf(s) ==
  IF Lower(s) \in ValueTypes THEN Ok(Lower(s))
  ELSE IF \E i \in DOMAIN s : s[i] \in {KELVIN, DOTTED_I} THEN Lax ELSE Err

(* TYPE values: the closed vocabularies in lower case, anything else as a    *)
(* private type without its X- prefix.                                       *)
TelTypes == {S("text"), S("voice"), S("fax"), S("cell"), S("video"), S("pager"), S("textphone")}
RelTypes ==
  {S("contact"), S("acquaintance"), S("friend"), S("met"), S("co-worker"), S("colleague"),
   S("co-resident"), S("neighbor"), S("child"), S("parent"), S("sibling"), S("spouse"),
   S("kin"), S("muse"), S("crush"), S("date"), S("sweetheart"), S("me"), S("agent"),
   S("emergency")}
TypeOf(s) ==
  LET l == Lower(s) IN
  IF \E i \in DOMAIN s : s[i] \in {KELVIN, DOTTED_I} THEN Lax
  ELSE IF l \in {S("home"), S("work")} THEN Ok(l)
  ELSE IF l \in TelTypes THEN Ok(S("tel:") \o l)
  ELSE IF l \in RelTypes THEN Ok(S("rel:") \o l)
  ELSE IF StartsWith(l, S("x-")) THEN Ok(S("x:") \o From(s, 3))
  ELSE Ok(S("x:") \o s)

(***************************************************************************)
(* Language tags (RFC 5646) and media types: any text at all unless the      *)
(* configuration asks for well-formed ones.  Only the forms whose status is   *)
(* beyond doubt are decided.                                                 *)
(***************************************************************************)
Alnum(c) == IsAlpha(c) \/ IsDigit(c)
TitleC(s) == TLCEval([i \in 1..Len(s) |-> IF i = 1 THEN UpperC(s[i]) ELSE LowerC(s[i])])
IsScript(s) == Len(s) = 4 /\ AllOf(s, IsAlpha)
IsRegion(s) == (Len(s) = 2 /\ AllOf(s, IsAlpha)) \/ (Len(s) = 3 /\ AllDigits(s))
IsVariant(s) == AllOf(s, Alnum) /\ (Len(s) \in 5..8 \/ (Len(s) = 4 /\ IsDigit(s[1])))
LanguageTag(s, cfg) ==
  IF ~cfg.tags THEN Ok(s)
  ELSE LET p == SplitC(s, DASH)
           n == Len(p)
           sc == IF n >= 2 /\ IsScript(p[2]) THEN 1 ELSE 0
           re == IF n >= 2 + sc /\ IsRegion(p[2 + sc]) THEN 1 ELSE 0
           va == SubSeq(p, 2 + sc + re, n)
           plain == /\ Len(p[1]) \in {2, 3} /\ AllOf(p[1], IsAlpha)
                    /\ \A k \in DOMAIN va : IsVariant(va[k])
                    /\ \A a, b \in DOMAIN va : a # b => Lower(va[a]) # Lower(va[b])
           canonical == /\ p[1] = Lower(p[1])
                        /\ (sc = 1 => p[2] = TitleC(p[2]))
                        /\ (re = 1 => p[2 + sc] = Upper(p[2 + sc]))
                        /\ \A k \in DOMAIN va : va[k] = Lower(va[k])
       IN IF ~(\A k \in DOMAIN p : p[k] # <<>> /\ Len(p[k]) <= 8 /\ AllOf(p[k], Alnum)) THEN Err
          ELSE IF plain /\ canonical THEN Ok(s) ELSE Lax

MimeChar(c) == IsLower(c) \/ IsDigit(c) \/ c \in {DASH, DOT, PLUS}
MimeName(s) == s # <<>> /\ AllOf(s, MimeChar) /\ IsLower(s[1])
MediaType(s, cfg) ==
  IF ~cfg.mime THEN Ok(s)
  ELSE LET p == SplitC(s, SEMI)
           sl == FindC(p[1], 1, SLASH)
           ty == SubSeq(p[1], 1, sl - 1)
           sub == From(p[1], sl + 1)
           plainSub == MimeName(sub) /\ FindC(sub, 1, PLUS) = 0
           ParamOk(q) == LET e == FindC(q, 1, EQUALS) IN
                         e # 0 /\ MimeName(SubSeq(q, 1, e - 1)) /\ MimeName(From(q, e + 1))
       IN IF sl = 0 \/ ty = <<>> THEN Err
          ELSE IF MimeName(ty) /\ plainSub /\ \A k \in 2..Len(p) : ParamOk(p[k]) THEN Ok(s)
          ELSE Lax
=============================================================================
