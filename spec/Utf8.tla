-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 texts are sequences of bytes.  Decode gives the code points, or     *)
(* INVALID if the bytes are not well-formed (truncated, stray or overlong    *)
(* sequences, surrogates, values beyond U+10FFFF).                           *)
EXTENDS Chars

INVALID == <<-1>>
IsTrail(b) == b >= 128 /\ b <= 191
SeqLen(b) == IF b < 128 THEN 1 ELSE IF b >= 194 /\ b <= 223 THEN 2 ELSE IF b >= 224 /\ b <= 239 THEN 3
             ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0

\* code point at index i of b, or -1
CodeAt(b, i) ==
    LET n == SeqLen(b[i]) IN
    IF n = 0 \/ i + n - 1 > Len(b) \/ \E k \in 1..(n - 1) : ~IsTrail(b[i + k]) THEN -1
    ELSE CASE n = 1 -> b[i]
           [] n = 2 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
           [] n = 3 -> LET c == (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
                       IN IF c < 2048 \/ (c >= 55296 /\ c <= 57343) THEN -1 ELSE c
           [] OTHER -> LET c == (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
                       IN IF c < 65536 \/ c > 1114111 THEN -1 ELSE c

Decode(b) ==
    LET D[i \in Nat, acc \in Seq(Int)] ==
            IF i > Len(b) THEN acc
            ELSE LET c == CodeAt(b, i) IN IF c < 0 THEN INVALID ELSE D[i + SeqLen(b[i]), Append(acc, c)]
    IN IF \A i \in 1..Len(b) : b[i] < 128 THEN b ELSE D[1, <<>>]

\* what can be decoded before the first fault
ValidPrefix(b) ==
    LET D[i \in Nat, acc \in Seq(Int)] ==
            IF i > Len(b) THEN acc
            ELSE LET c == CodeAt(b, i) IN IF c < 0 THEN acc ELSE D[i + SeqLen(b[i]), Append(acc, c)]
    IN D[1, <<>>]

Code(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode(s) == FlattenSeq([i \in 1..Len(s) |-> Code(s[i])])

\* laws, checked by TLC over samples of every range
Utf8Laws(C) == \A c \in C : Decode(Code(c)) = <<c>>
Utf8Rejects(B) == \A b \in B : Decode(b) = INVALID
=============================================================================
