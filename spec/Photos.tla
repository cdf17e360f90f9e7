------------------------------- MODULE Photos ------------------------------
(* Embedded photos: base64 (RFC 4648) and which photos are extracted.       *)
EXTENDS Reader

Sextet(c) ==
  IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71
  ELSE IF IsDigit(c) THEN c + 4 ELSE IF c = PLUS THEN 62 ELSE 63
InAlphabet(c) == IsAlpha(c) \/ IsDigit(c) \/ c = PLUS \/ c = SLASH

(* Octets of four characters of which the last pad are "=".                  *)
Quad(q, pad) ==
  LET v == TLCEval([k \in 1..4 |-> IF k > 4 - pad THEN 0 ELSE Sextet(q[k])])
      n == v[1] * 262144 + v[2] * 4096 + v[3] * 64 + v[4]
      all == <<n \div 65536, (n \div 256) % 256, n % 256>>
  IN [ok |-> IF pad = 0 THEN TRUE ELSE n % (IF pad = 1 THEN 256 ELSE 65536) = 0,
      v |-> SubSeq(all, 1, 3 - pad)]

(* "any" for text whose unused trailing bits are not zero.                   *)
Base64(s) ==
  LET n == Len(s)
      pad == IF n >= 1 /\ s[n] = EQUALS THEN IF n >= 2 /\ s[n - 1] = EQUALS THEN 2 ELSE 1 ELSE 0
      quads == TLCEval([k \in 1..(n \div 4) |->
                 Quad(SubSeq(s, 4 * k - 3, 4 * k), IF 4 * k = n THEN pad ELSE 0)])
  IN IF n % 4 # 0 \/ ~(\A i \in 1..(n - pad) : InAlphabet(s[i])) THEN Err
     ELSE IF \E k \in DOMAIN quads : ~quads[k].ok THEN Lax
     ELSE Ok(FlattenSeq([k \in DOMAIN quads |-> quads[k].v]))

(* Is the photo marked as a base64 JPEG?  "any" where the marking is doubtful.*)
Jpeg == S("x:JPEG")
EncodingName == S("ENCODING")
Marked(p) ==
  LET types == UNION {{Upper(q.v[i]) : i \in DOMAIN q.v} :
                        q \in {p.p[k] : k \in {k \in DOMAIN p.p : p.p[k].k = "TYPE"}}}
      encs == {p.p[k].v : k \in {k \in DOMAIN p.p :
                  p.p[k].k = Private /\ Upper(p.p[k].v[1]) = EncodingName}}
  IN IF p.t # "text" \/ Upper(Jpeg) \notin types THEN "no"
     ELSE IF \E e \in encs : Len(e) # 2 \/ e[2] = S("B") THEN "any"
     ELSE IF \E e \in encs : e[2] = S("b") THEN "yes" ELSE "no"

PhotoStep(acc, p) ==
  LET m == Marked(p) IN
  IF p.s # "PHOTO" \/ m = "no" \/ acc.st = "err" THEN acc
  ELSE IF m = "any" THEN [acc EXCEPT !.st = Worst(@, "any")]
  ELSE LET b == Base64(p.x[1]) IN
       [st |-> Worst(acc.st, b.st), v |-> Append(acc.v, b.v)]
(* [st, v]: the bytes of the embedded JPEG photos of a card, in order.        *)
ExtractedPhotos(card) ==
  IF \E k \in DOMAIN card : card[k].s = "PHOTO" /\ Marked(card[k]) = "any" THEN Lax
  ELSE FoldLeft(PhotoStep, [st |-> "ok", v |-> <<>>], card)
=============================================================================
