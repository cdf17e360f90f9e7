------------------------------- MODULE Catalog -----------------------------
(* Property lines that stand for all there are: every slot, every type of     *)
(* value it may hold, with and without group and parameters.                  *)
EXTENDS Model

Lines1 == TLCEval(<<
  S("SOURCE:http://a.b/c"), S("KIND:group"), S("i.KIND;ALTID=1:org"), S("XML:<a/>"), S("FN:f"), S("g.FN;PREF=1;TYPE=home:n"),
  S("N:a;b;;;c"), S("g.N;SORT-AS=\"a,b\":x"), S("NICKNAME;TYPE=work:n"),
  S("PHOTO:http://a.b/p"), S("PHOTO;VALUE=text;TYPE=JPEG;ENCODING=b:YQ=="), S("PHOTO:aGk="),
  S("BDAY:20000229"), S("BDAY;VALUE=text:once"), S("h.BDAY;VALUE=date-and-or-time:19850412T232000-0330,T10"),
  S("ANNIVERSARY:--0401"), S("ANNIVERSARY;VALUE=text:x\\, y"), S("GENDER:M;man"), S("GENDER:"), S("q.GENDER:;x"), S("URL;TYPE=home:http://a.b/"),
  S("ADR;LABEL=\"l\\nm\":;;s\\;t;l;r;p;c"), S("ADR;GEO=\"geo:1,2\";TZ=-0500:p;e;s;l;r;1;c"), S("ADR:;;;;;;x"), S("TITLE:t"), S("ROLE:r"), S("LOGO:data:a/b,c"),
  S("ORG;SORT-AS=o:a\\;b;c"), S("MEMBER:urn:a:b"), S("RELATED;TYPE=friend:urn:x:y"), S("RELATED;VALUE=text:z"),
  S("TEL;VALUE=uri;TYPE=\"voice,home\":tel:+1-2"), S("TEL:+1 2"), S("TEL;VALUE=text;TYPE=cell:3"), S("EMAIL;PREF=100:a@b.c"), S("IMPP:xmpp:a@b.c"),
  S("LANG;PREF=2:en"), S("TZ:Europe/Berlin"), S("TZ;VALUE=uri:http://a.b/z"), S("TZ;VALUE=utc-offset:-0030"), S("TZ;VALUE=text:+0100"),
  S("GEO:geo:1.0,2.0"), S("CATEGORIES:a\\,b,c"), S("NOTE;LANGUAGE=en:v\\n\\\\w"), S("NOTE;X-P=q,r;TZ=\"http://a.b/\":v"), S("PRODID:p"),
  S("REV:20220101T102030Z"), S("k.REV;X-A=b:20001231T235959+1400"), S("SOUND:http://a.b/s"), S("UID:urn:a:b"), S("UID;VALUE=text:u"),
  S("UID;VALUE=uri:urn:c:d"), S("CLIENTPIDMAP:1;urn:a:b"), S("KEY;MEDIATYPE=\"a/b\":http://a.b/k"), S("KEY;VALUE=text:k"), S("KEY:urn:a:k"), S("FBURL:http://a.b/f"),
  S("CALADRURI;PID=1.2,3:mailto:a@b"), S("CALURI;CALSCALE=g:http://a.b/u"),
  S("X-A:t"), S("g.x-b;VALUE=text:t\\,u"), S("X-A;VALUE=integer:1,-2"), S("X-A;VALUE=float:1.5,-0.25"), S("X-A;VALUE=boolean:TRUE"),
  S("X-A;VALUE=date:19991231,--01"), S("X-A;VALUE=date-time:20000101T000000Z"), S("X-A;VALUE=time:102200-0830,10"),
  S("X-A;VALUE=date-and-or-time:T235959,1999"), S("X-A;VALUE=timestamp:20000101T000000-0001"), S("X-A;VALUE=uri:urn:x:y"),
  S("X-A;VALUE=utc-offset:+0530"), S("X-A;VALUE=language-tag:fr-CA") >>)
Item(k) == Property(Lines1[k], Strict)
Items1 == TLCEval([k \in DOMAIN Lines1 |-> Item(k)])
ASSUME \A k \in DOMAIN Lines1 : Items1[k].st = "ok" \/ ~PrintT(<<"not a property", k>>)
ASSUME {Items1[k].p.s : k \in DOMAIN Lines1} = Slots \cup {Private}

(* A good value for every slot. *)
GoodValue(slot) ==
  LET k == CHOOSE k \in DOMAIN Lines1 : /\ Items1[k].p.s = slot /\ FindC(Lines1[k], 1, DQ) = 0
                                         /\ \A j \in DOMAIN Items1[k].p.p : Items1[k].p.p[j].k # "VALUE"
  IN From(Lines1[k], FindC(Lines1[k], 1, COLON) + 1)
=============================================================================
