------------------------------- MODULE MCUtf8 -------------------------------
(* Encoding and decoding are inverse to each other; what is not an encoding  *)
(* of code points is refused.                                                *)
EXTENDS Utf8
CONSTANTS Bytes, MaxLen
VARIABLE vB
Init == vB = <<>>
Next == Len(vB) < MaxLen /\ \E c \in Bytes : vB' = Append(vB, c)
Scalar(c) == c >= 1 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Laws == LET d == Decode(vB) IN
        /\ d # INVALID => Encode(d) = vB /\ \A i \in 1..Len(d) : Scalar(d[i])
        /\ LET p == ValidPrefix(vB) IN /\ StartsWith(vB, Encode(p))
                                       /\ d = INVALID <=> Encode(p) # vB
ASSUME \A c \in (1..3000) \cup (55000..55295) \cup (57344..57600) \cup (65000..66000) \cup (1114000..1114111) :
          Decode(Code(c)) = <<c>>
=============================================================================
