------------------------------ MODULE MC_Compose ---------------------------
(* Documents made of at most N pieces: cards that are accepted, rejected or   *)
(* accepted loosely only, blank lines, unfinished cards and stray lines.      *)
(* C23, C06, C07, C08.                                                        *)
EXTENDS Model

Rows(ls) == FoldLeft(LAMBDA a, l : a \o l \o CRLF, <<>>, ls)
Doc(ls) == Rows(<<S("BEGIN:VCARD"), S("VERSION:4.0")>> \o ls \o <<S("END:VCARD")>>)
Pieces == <<
  Doc(<<S("FN:a"), S("NOTE:x\\ny")>>),
  Doc(<<S("FN:b"), S("g.TEL;TYPE=\"cell,home\":+1"), S("X-A;VALUE=integer:1,2")>>),
  Rows(<<S("begin:vcard"), S("version:3.0"), S("KIND:group"), S("FN:c"), S("MEMBER:urn:a:b"), S("end:vcard")>>),
  Doc(<<S("FN:d"), S("UID:urn:a:b"), S("UID:urn:c:d")>>),     \* rejected strictly
  Doc(<<S("FN:e"), S("PREF=1"), S("NOTE;PREF=0:z")>>),         \* the same
  Doc(<<S("NOTE:no name")>>),                                  \* not valid
  Rows(<<S("BEGIN:VCARD"), S("VERSION:4.0"), S("FN:f")>>),     \* not closed
  Rows(<<S("BEGIN:VCARD"), S("VERSION:2.1"), S("FN:g"), S("END:VCARD")>>),
  Rows(<<S("END:VCARD")>>), Rows(<<S("FN:stray")>>), CRLF, <<LF>>,
  Rows(<<S("BEGIN:VCARD"), S("VERSION:4.0"), S("FN:h"), S(" i"), <<>>, S("END:VCARD")>>),
  S("BEGIN:VCARD") \o <<LF>> \o S("VERSION:4.0") \o <<LF>> \o S("FN:j") \o <<LF>> \o S("END:VCARD") >>

VARIABLE pcs_
Init == pcs_ = <<>>
Next == Len(pcs_) < N /\ \E k \in DOMAIN Pieces : pcs_' = Append(pcs_, k)
Text1(ks) == FoldLeft(LAMBDA a, k : a \o Pieces[k], <<>>, ks)
Lines1 == ContentLines(Text1(pcs_))
Alone == TLCEval([k \in DOMAIN Pieces |-> <<Decode(Pieces[k], Strict), Decode(Pieces[k], Loose)>>])
CfgOf(c) == IF c = 1 THEN Strict ELSE Loose
Blank1(k) == \A j \in DOMAIN ContentLines(Pieces[k]) : ContentLines(Pieces[k])[j].t = <<>>
(* Pieces end their last line, except for the last one in the list.           *)
Ended(ks) == \A j \in 1..(Len(ks) - 1) : ks[j] # Len(Pieces)

(* Documents that are accepted are accepted one after the other.              *)
AcceptedCompose ==
  Ended(pcs_) => \A c \in {1, 2} :
    LET real == SelectSeq(pcs_, LAMBDA k : ~Blank1(k)) IN
    (real # <<>> /\ \A j \in DOMAIN real : Alone[real[j]][c].res = "ok") =>
      DecodeLines(Lines1, CfgOf(c)) = [res |-> "ok", cards |-> FlattenSeq([j \in DOMAIN real |-> Alone[real[j]][c].cards])]
(* One that is rejected makes the whole rejected. *)
RejectedSpoils ==
  Ended(pcs_) => \A c \in {1, 2} :
    Cardinality({j \in DOMAIN pcs_ : ~Blank1(pcs_[j]) /\ Alone[pcs_[j]][c].res = "err"}) = 1 => DecodeLines(Lines1, CfgOf(c)).res = "err"

(* Iteration: as many cards as there are, errors between them, then the end.  *)
Seen(cfg) == Items(Lines1, 0, cfg, <<>>)
IterationEnds == \A c \in {1, 2} : Seen(CfgOf(c))[Len(Seen(CfgOf(c)))].item \in {"end", "open"}
NoCardIsLost ==
  Ended(pcs_) => \A j \in DOMAIN pcs_ :
    (/\ Alone[pcs_[j]][1].res = "ok"
     /\ \A i \in 1..(j - 1) : Alone[pcs_[i]][1].res = "ok" \/ Blank1(pcs_[i])) =>
    \A k \in DOMAIN Alone[pcs_[j]][1].cards :
      \E i \in DOMAIN Seen(Strict) : Seen(Strict)[i].item = "card" /\ Seen(Strict)[i].card = Alone[pcs_[j]][1].cards[k]
Emit ==
  \A c \in {1, 2} :
    LET cfg == CfgOf(c) o == DecodeLines(Lines1, cfg)
    IN /\ DecodeCase(Text1(pcs_), cfg, o.res, o.cards)
       /\ Case([op |-> "iter", in |-> Text1(pcs_), strict |-> cfg.strict, want |-> [items |-> Seen(cfg)]])
=============================================================================
