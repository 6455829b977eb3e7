------------------------------ MODULE VocabGen ------------------------------
(* Questions about the entries of a vocabulary, written for the recorder.    *)
EXTENDS Vocab, Json, IOUtils
Voc == JsonDeserialize(IOEnv.VOC)
Questions == FlattenSeq(Eager([i \in 1..Len(Voc.entries) |-> EntryCases(Voc.entries[i], Voc.o, Voc.tables)]))
             \o FlattenSeq(Eager([i \in 1..Len(Voc.pairs) |-> PairCases(Voc.pairs[i][1], Voc.pairs[i][2], Voc.o, Voc.tables)]))
ASSUME JsonSerialize(IOEnv.OUT, Questions)
VARIABLE vDone
Init == vDone = TRUE
Next == UNCHANGED vDone
=============================================================================
