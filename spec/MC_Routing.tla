----------------------------- MODULE MC_Routing ----------------------------
(* Every property with every VALUE and values of every type, good and bad.    *)
(* C12, C08.                                                                  *)
EXTENDS Model

ValueTexts == <<
  <<>>, S("a"), S("a\\,b"), S("a;b"), S("a\\;b\\nc"), S("http://a.b/c?d#e"), S("urn:x:y"), S("1"), S("-7"), S("0"), S("007"),
  S("9223372036854775807"), S("9223372036854775808"), S("-9223372036854775808"), S("-9223372036854775809"), S("1,2,-3"), S("1,,2"), S("1,"),
  S("+1"), S("1.5"), S("-0.25"), S("1.5,2"), S("1."), S(".5"), S("1e3"), S("1,x"), S("TRUE"), S("false"), S("True"), S("yes"), S("true,false"),
  S("19850412"), S("1985-04"), S("--0412"), S("---12"), S("1985"), S("19850230"), S("19850412,19860101"), S("T102200"), S("102200"), S("1022"), S("T10"),
  S("-2200"), S("102200Z"), S("102200-0800"), S("19961022T140000"), S("19961022T140000Z"), S("19961022T140000-0500,20000101T000000Z"),
  S("--1022T1400"), S("19961022T1400"), S("+0100"), S("-0030"), S("Z"), S("+01"), S("+2500"), S("en"), S("en-US"), S("M"), S("F;x"), S("Q"), S(";x"),
  S("group"), S("individual"), S("bogus"), S(";;;;;;"), S("a;b;c;d;e;f;g"), S("a;b;c;d;e;f"), S("a;b;c;d;e;f;g;h"), S("1;urn:a:b"), S("0;urn:a:b"),
  S("x;urn:a:b"), S("1;nope"), S("a b"), S("http://a b/"), S("1:2"), <<97, 1>>, <<97, 127>>, <<97, TAB>>, <<233>> >>
Types12 == SetToSeq(ValueTypes)
Valued == <<<<>>, S("bogus"), <<>>, S("textt"), S("tex"), S("x-t")>> \o Types12

Subjects == [k \in 1..(Len(SlotTable) + 1) |-> IF k <= Len(SlotTable) THEN NameText[SlotTable[k][1]] ELSE S("X-A")]
VARIABLES sub_, vt_
Init == sub_ \in DOMAIN Subjects /\ vt_ \in 1..Len(Valued)
Next == FALSE /\ UNCHANGED <<sub_, vt_>>
(* the third has an empty VALUE, the first none *)
Par(k) == IF k = 1 THEN <<>> ELSE S(";VALUE=") \o (IF k % 2 = 0 THEN Upper(Valued[k]) ELSE Valued[k])
TheLine(k, v) == Subjects[sub_] \o Par(k) \o <<COLON>> \o v
P1(k, v, cfg) == Property(TheLine(k, v), cfg)

(* Loosely, a VALUE that is not known is as good as none; strictly it fails.  *)
UnknownIsAbsent ==
  vt_ \in 2..6 => \A k \in DOMAIN ValueTexts :
    /\ P1(vt_, ValueTexts[k], Loose) = P1(1, ValueTexts[k], Loose)
    /\ P1(vt_, ValueTexts[k], Strict).st = "err"
(* What is accepted is of the type that was asked for. *)
TypeOfText(t) == CASE t = "dt" -> S("date-and-or-time") [] t = "ts" -> S("timestamp") [] t = "lang" -> S("language-tag")
                   [] t = "offset" -> S("utc-offset") [] OTHER -> S(t)
Several == {"texturi", "photo", "dt", "tz", "private"}
TypeIsAsked ==
  (vt_ > 6 /\ HoldsOf(IF sub_ <= Len(SlotTable) THEN SlotTable[sub_][1] ELSE Private) \in Several) =>
    \A k \in DOMAIN ValueTexts : LET r == P1(vt_, ValueTexts[k], Strict) IN r.st = "ok" => TypeOfText(r.p.t) = Valued[vt_]
StrictIsLoose ==
  \A k \in DOMAIN ValueTexts : LET r == P1(vt_, ValueTexts[k], Strict) IN r.st = "ok" => P1(vt_, ValueTexts[k], Loose) = r
Emit == \A k \in DOMAIN ValueTexts : \A cfg \in Cfgs : LineCase(TheLine(vt_, ValueTexts[k]), cfg)
=============================================================================
