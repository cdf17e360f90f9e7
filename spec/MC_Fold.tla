------------------------------- MODULE MC_Fold -----------------------------
(* Every folding of short documents at up to N places inside their content    *)
(* lines, with a space or a tab, and line breaks of both styles.  C04.        *)
EXTENDS Model

Rows(names) == FoldLeft(LAMBDA a, l : a \o l \o CRLF, <<>>, names)
Doc(ls) == Rows(<<S("BEGIN:VCARD"), S("VERSION:4.0")>> \o ls \o <<S("END:VCARD")>>)
Documents == <<
  Doc(<<S("FN:a b")>>),
  Doc(<<S("FN:f"), S("g.NOTE;X-P=\"q;r\",s;ALTID=1:v\\n\\, w")>>),
  Doc(<<S("FN:f"), S("ADR;LABEL=\"a\\nb\":;;s\\;t,;l;r;p;c")>>),
  Doc(<<S("FN:f"), S("TZ;VALUE=utc-offset:-0330"), S("X-A;VALUE=integer:1,-22")>>),
  Doc(<<S("FN:f"), <<78, 79, 84, 69, COLON, 233, 8364, 128512, 120>>, S("REV:20220101T102030Z")>>),
  Doc(<<S("FN:f"), S("BAD LINE"), S("PREF=1"), S("URL:http://a.b/c")>>),
  Doc(<<S("FN:f"), S("N:"), S("NOTE: x")>>) \o Doc(<<S("FN:g")>>),
  Rows(<<S("BEGIN:VCARD"), S("VERSION:4.0"), S("FN:never closed")>>),
  Rows(<<S("BEGIN:VCARD"), S("FN:no version"), S("END:VCARD")>>) >>

VARIABLES base_, cuts_, nl_
Base1 == Documents[base_]
Break(k) == CASE k = 1 -> <<LF, SP>> [] k = 2 -> <<CR, LF, SP>> [] k = 3 -> <<LF, TAB>> [] k = 4 -> <<CR, LF, TAB>>
Init == base_ \in DOMAIN Documents /\ cuts_ = <<>> /\ nl_ \in {TRUE, FALSE}
(* A place inside a content line: behind any of its characters.               *)
Place(at) == Base1[at] \notin {LF, CR}
Last1 == IF cuts_ = <<>> THEN 0 ELSE cuts_[Len(cuts_)][1]
Next == /\ Len(cuts_) < N
        /\ \E at \in (Last1 + 1)..Len(Base1) : \E k \in (IF cuts_ = <<>> THEN 1..4 ELSE {1, 4}) :
             Place(at) /\ cuts_' = Append(cuts_, <<at, k>>)
        /\ UNCHANGED <<base_, nl_>>
Folded ==
  LET one(a, i) == a \o (IF nl_ /\ Base1[i] = CR THEN <<>> ELSE <<Base1[i]>>)
                     \o (IF \E k \in DOMAIN cuts_ : cuts_[k][1] = i
                         THEN Break(cuts_[CHOOSE k \in DOMAIN cuts_ : cuts_[k][1] = i][2]) ELSE <<>>)
  IN FoldLeft(one, <<>>, [i \in 1..Len(Base1) |-> i])

(* Folding leaves the content lines alone, and what they denote.              *)
BaseLines == TLCEval([k \in DOMAIN Documents |-> ContentLines(Documents[k])])
FoldingIsInvisible == ContentLines(Folded) = BaseLines[base_]
BaseOut == TLCEval([k \in DOMAIN Documents |-> <<DecodeLines(BaseLines[k], Strict), DecodeLines(BaseLines[k], Loose)>>])
Emit ==
  \A c \in {1, 2} : LET o == BaseOut[base_][c] cfg == IF c = 1 THEN Strict ELSE Loose IN
    /\ DecodeCase(Folded, cfg, o.res, o.cards)
    /\ Case([op |-> "same", in |-> Folded, base |-> Base1, strict |-> cfg.strict])
=============================================================================
