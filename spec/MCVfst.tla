------------------------------- MODULE MCVfst -------------------------------
(* Laws of the verdict on files, over small transducers given by the run:    *)
(* no proper prefix of a file passes, a file of the other byte order or the  *)
(* other kind is judged as its content deserves, and a single changed byte   *)
(* in what identifies the file is always noticed.                            *)
EXTENDS VfstFile, Json, IOUtils
Samples == JsonDeserialize(IOEnv.SAMPLES)
VARIABLE vAt            \* <<sample, length of the prefix>>
Init == vAt \in {<<i, n>> : i \in 1..Len(Samples), n \in {0}}
Next == /\ vAt[2] < Len(Samples[vAt[1]].b)
        /\ vAt' = <<vAt[1], vAt[2] + 1>>
S == Samples[vAt[1]]
Kind == S.weighted = 1
Prefix == [s |-> "data", b |-> Upto(S.b, vAt[2])]
Whole == vAt[2] = Len(S.b)
Complete == FileVerdict(Prefix, Kind) = IF Whole THEN "ok" ELSE "bad"
OtherKind == FileVerdict(Prefix, ~Kind) = "bad"
Changed(x) == [s |-> "data", b |-> [S.b EXCEPT ![vAt[2]] = x]]
Noticed == vAt[2] \in 1..8 => \A x \in (0..255) \ {S.b[vAt[2]]} : FileVerdict(Changed(x), Kind) = "bad"
=============================================================================
