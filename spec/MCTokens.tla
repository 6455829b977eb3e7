------------------------------ MODULE MCTokens ------------------------------
(* Every text over an alphabet up to a length: the laws of the tokenisation  *)
(* and of the sentence split hold.                                           *)
EXTENDS Sent
CONSTANTS Alphabet, MaxLen
VARIABLE vT
Init == vT = <<>>
Next == Len(vT) < MaxLen /\ \E c \in Alphabet : vT' = Append(vT, c)
Laws == TokenLaws(vT, TRUE) /\ TokenLaws(vT, FALSE)
NoneKnown(w) == FALSE
AllKnown(w) == TRUE
SentLaws == SentenceLaws(vT, NoneKnown) /\ SentenceLaws(vT, AllKnown)
ASSUME CaseLaws /\ NormaliseLaws
=============================================================================
