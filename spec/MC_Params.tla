------------------------------ MODULE MC_Params ----------------------------
(* Every sequence of at most N parameters of a pool, on properties of every   *)
(* sort.  C11, C12.                                                           *)
EXTENDS Model

Good == <<
  S("LANGUAGE=en"), S("language=\"fr\""), S("ALTID=1"), S("AltId=\"a;b\""), S("MEDIATYPE=a/b"), S("MEDIATYPE=\"text/x;q=a\""),
  S("CALSCALE=gregorian"), S("PREF=1"), S("pref=\"100\""), S("PID=1.2,3"), S("PID=4"), S("TYPE=home"), S("TYPE=WORK,X-y"),
  S("type=\"cell,Friend\""), S("SORT-AS=\"b,c\""), S("Sort-As=d"), S("GEO=\"geo:1,2\""), S("TZ=-0500"), S("TZ=Raleigh/North"),
  S("TZ=\"http://a.b/\""), S("TZ=\"+01:00\""), S("CHARSET=UTF-8"), S("X-P=q"), S("x-p=r,s"), S("ENCODING=b"), S("LABEL=l"), S("LABEL=\"m:n\""),
  S("VALUE=text"), S("VALUE=Uri"), S("VALUE=date-and-or-time"), S("value=\"integer\""), S("ALTID=a\\,b\\;c\\\\d\\ne"), S("ALTID=a=b"), S("X-Q=\"a=b,c\"") >>
Bad1 == <<
  S("PREF=0"), S("PREF=101"), S("PREF=-1"), S("PREF="), S("PREF=1,2"), S("PID="), S("PID=1."), S("PID=.1"), S("PID=a"), S("PID=1.2.3"),
  S("GEO=geo:1,2"), S("CHARSET=utf-16"), S("CHARSET=utf-8"), S("CHARSET=UTF-") \o <<233>> \o S("8"), S("CHARSET="), S("CHARSET=UTF-8,x"), S("VALUE=bogus"), S("VALUE="), S("FOO=1"), S("X-=1"), S("XP=1"), S("=1"), S("PREF"), S("PREF 1"),
  S("ALTID=\"a"), S("ALTID=a\"b"), S("ALTID=\"a\"b"), S("TZ=\"no uri\""), S("PRE=1"), S("PREFS=1"), S("TYPE"), S("SORT=1"), S("SORTAS=1"),
  S("GEO=\"1,2\""), S("PREF=1\\,2"), S(""), S("ALTID=a") \o <<1>>, S("ALTID=\"") \o <<127>> \o S("\""), S("LANGUAGE="), S("ALTID=\"\"") >>
Pool == IF IOEnv.POOL = "all" THEN Good \o Bad1 ELSE IF IOEnv.POOL = "good" THEN Good
        ELSE <<Good[1], Good[3], Good[7], Good[8], Good[11], Good[12], Good[13], Good[15], Good[17], Good[18], Good[22], Good[23], Good[26], Good[28], Bad1[1], Bad1[12]>>

(* A property of every sort, and a good value for it.                         *)
Hosts == IF IOEnv.POOL = "all" /\ N = 1
  THEN {<<S("SOURCE"), S("http://a.b/c")>>, <<S("KIND"), S("org")>>, <<S("XML"), S("<a/>")>>, <<S("FN"), S("f")>>,
    <<S("N"), S("a;b;;;c")>>, <<S("NICKNAME"), S("n")>>, <<S("PHOTO"), S("http://a.b/p")>>, <<S("BDAY"), S("20000229")>>,
    <<S("ANNIVERSARY"), S("--0401")>>, <<S("GENDER"), S("M;man")>>, <<S("URL"), S("http://a.b/")>>, <<S("ADR"), S(";;s;t;l;r;p;c")>>,
    <<S("TITLE"), S("t")>>, <<S("ROLE"), S("t")>>, <<S("LOGO"), S("http://a.b/c")>>, <<S("ORG"), S("a;b")>>, <<S("MEMBER"), S("urn:a:b")>>,
    <<S("RELATED"), S("urn:x:y")>>, <<S("TEL"), S("tel:+1-2")>>, <<S("EMAIL"), S("a@b.c")>>, <<S("IMPP"), S("xmpp:a@b.c")>>, <<S("LANG"), S("en")>>,
    <<S("TZ"), S("Europe/Berlin")>>, <<S("GEO"), S("geo:1,2")>>, <<S("CATEGORIES"), S("a,b")>>, <<S("NOTE"), S("v")>>, <<S("PRODID"), S("p")>>,
    <<S("REV"), S("20220101T102030Z")>>, <<S("SOUND"), S("http://a.b/s")>>, <<S("UID"), S("urn:a:b")>>, <<S("CLIENTPIDMAP"), S("1;urn:a:b")>>,
    <<S("KEY"), S("http://a.b/k")>>, <<S("FBURL"), S("http://a.b/k")>>, <<S("CALADRURI"), S("mailto:a@b")>>, <<S("CALURI"), S("http://a.b/k")>>,
    <<S("X-A"), S("t")>>, <<S("g.X-Type"), S("7")>>}
  ELSE {<<S("NOTE"), S("v")>>, <<S("h.ADR"), S(";;s\\;t;l;r;p;c")>>, <<S("PRODID"), S("p")>>, <<S("X-A"), S("7")>>}

VARIABLE prm_
Init == prm_ = <<>>
Next == Len(prm_) < N /\ \E k \in DOMAIN Pool : prm_' = Append(prm_, k)
Text1(host, ks) == FoldLeft(LAMBDA a, k : a \o <<SEMI>> \o Pool[k], host[1], ks) \o <<COLON>> \o host[2]
Of(host, ks) == Property(Text1(host, ks), Strict)
NameOf(k) == LET e == FindC(Pool[k], 1, EQUALS) IN IF e = 0 THEN "" ELSE ParamFor(SubSeq(Pool[k], 1, e - 1))
Free(k) == NameOf(k) \notin {Private, "ENCODING"}   \* neither kept in document order

(* Two different parameters may be written in any order.                      *)
SwapAt(ks, i) == [ks EXCEPT ![i] = ks[i + 1], ![i + 1] = ks[i]]
OrderIsIrrelevant ==
  \A h \in Hosts : \A i \in 1..(Len(prm_) - 1) :
    NameOf(prm_[i]) # NameOf(prm_[i + 1]) /\ (Free(prm_[i]) \/ Free(prm_[i + 1]))
    => Of(h, SwapAt(prm_, i)) = Of(h, prm_)
(* A line fails exactly if one of its parameters fails on its own, except for *)
(* what VALUE says about the value.                                           *)
NoInterference ==
  \A h \in Hosts :
    LET whole == Of(h, prm_)
        alone == [i \in DOMAIN prm_ |-> Of(h, <<prm_[i]>>)]
        plain == \A i \in DOMAIN prm_ : NameOf(prm_[i]) # "VALUE"
        once == \A i, j \in DOMAIN prm_ : i # j => NameOf(prm_[i]) # NameOf(prm_[j])
    IN /\ plain => whole.st = WorstOf([i \in DOMAIN prm_ |-> alone[i].st])
       /\ plain /\ once /\ whole.st = "ok"
          => /\ Len(whole.p.p) = FoldLeft(LAMBDA n, r : n + Len(r.p.p), 0, alone)
             /\ \A i \in DOMAIN prm_ : \A j \in DOMAIN alone[i].p.p : alone[i].p.p[j] \in {whole.p.p[k] : k \in DOMAIN whole.p.p}
             /\ whole.p.x = Of(h, <<>>).p.x

Emit == \A h \in Hosts : \A cfg \in (IF N = 1 THEN Cfgs ELSE {Strict}) : LineCase(Text1(h, prm_), cfg)
=============================================================================
