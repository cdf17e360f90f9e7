------------------------------- MODULE MC_Photo ----------------------------
(* Every card of at most N photos, marked in every way, and every text of at  *)
(* most N characters as the base64 of one.  C20.                              *)
EXTENDS Model

Par(k, v) == [k |-> k, v |-> v]
PhotoTypes == <<<<>>, <<Par("TYPE", <<S("x:JPEG")>>)>>, <<Par("TYPE", <<S("x:jpeg")>>)>>, <<Par("TYPE", <<S("home"), S("x:Jpeg")>>)>>,
           <<Par("TYPE", <<S("x:PNG")>>)>>, <<Par("TYPE", <<S("x:JPEGS"), S("x:GIF")>>)>>>>
Encodings == <<<<>>, <<Par(Private, <<S("ENCODING"), S("b")>>)>>, <<Par(Private, <<S("encoding"), S("b")>>)>>,
               <<Par(Private, <<S("ENCODING"), S("8BIT")>>)>>, <<Par(Private, <<S("X-ENCODING"), S("b")>>)>>,
               <<Par(Private, <<S("X-ABC"), S("b")>>), Par(Private, <<S("ENCODING"), S("b")>>)>>,
               <<Par(Private, <<S("ENCODING"), S("b")>>), Par(Private, <<S("X-ABC"), S("q")>>)>>>>
Data == <<<<>>, S("/9j/AA=="), S("aGk="), S("AA=A"), S("A")>>
Photos1 == TLCEval(
  {[Bare("PHOTO", "text", <<Data[d]>>) EXCEPT !.p = PhotoTypes[t] \o Encodings[e]] : t \in DOMAIN PhotoTypes, e \in DOMAIN Encodings, d \in {2, 4}}
  \cup {[Bare("PHOTO", "text", <<Data[d]>>) EXCEPT !.p = PhotoTypes[2] \o Encodings[2]] : d \in DOMAIN Data}
  \cup {[Bare("PHOTO", "uri", <<S("data:image/jpeg;base64,AAAA")>>) EXCEPT !.p = PhotoTypes[t] \o Encodings[e]] : t \in {1, 2}, e \in {1, 2}}
  \cup {[Bare("LOGO", "uri", <<S("data:a/b,AAAA")>>) EXCEPT !.p = PhotoTypes[2] \o Encodings[2]]})
Alphabet == {65, 66, 122, 57, SLASH, PLUS, EQUALS, DASH}
(* Encoding as the inverse, for the theorem. *)
Digit64 == S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
Quad64(b) ==
  LET n == b[1] * 65536 + (IF Len(b) > 1 THEN b[2] ELSE 0) * 256 + (IF Len(b) > 2 THEN b[3] ELSE 0)
      all == <<Digit64[(n \div 262144) + 1], Digit64[((n \div 4096) % 64) + 1], Digit64[((n \div 64) % 64) + 1], Digit64[(n % 64) + 1]>>
  IN SubSeq(all, 1, Len(b) + 1) \o [k \in 1..(3 - Len(b)) |-> EQUALS]
RECURSIVE Encode64(_)
Encode64(b) == IF b = <<>> THEN <<>> ELSE IF Len(b) <= 3 THEN Quad64(b) ELSE Quad64(SubSeq(b, 1, 3)) \o Encode64(From(b, 4))
Bytes == {0, 1, 62, 63, 127, 128, 254, 255}

VARIABLES ph_
Init == ph_ = <<>>
Next == Len(ph_) < N /\ \E x \in (CASE IOEnv.SET = "marks" -> Photos1 [] IOEnv.SET = "base64" -> Alphabet [] OTHER -> Bytes) : ph_' = Append(ph_, x)
One1(text) == <<[Bare("PHOTO", "text", <<text>>) EXCEPT !.p = PhotoTypes[2] \o Encodings[2]]>>
DecodingIsInverse == IOEnv.SET = "bytes" => Base64(Encode64(ph_)) = Ok(ph_)
OnlyOneText == IOEnv.SET = "base64" => LET r == Base64(ph_) IN r.st = "ok" => Encode64(r.v) = ph_
(* Photos are extracted one by one: the others do not matter. *)
PhotosAreIndependent ==
  IOEnv.SET = "marks" =>
    LET all == ExtractedPhotos(ph_) alone == [k \in DOMAIN ph_ |-> ExtractedPhotos(<<ph_[k]>>)] IN
    /\ (all.st = "err") <=> (\E k \in DOMAIN ph_ : alone[k].st = "err")
    /\ all.st = "ok" => all.v = FlattenSeq([k \in DOMAIN ph_ |-> alone[k].v])
Card1 == Canonical(CASE IOEnv.SET = "marks" -> ph_ [] IOEnv.SET = "base64" -> One1(ph_) [] OTHER -> One1(Encode64(ph_)))
Emit == Case([op |-> "photo", card |-> Card1, want |-> ExtractedPhotos(Card1)])
=============================================================================
