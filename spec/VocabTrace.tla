----------------------------- MODULE VocabTrace -----------------------------
(* The answers of the dictionary to the questions of Vocab.tla.              *)
EXTENDS Vocab, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.EVENTS)
VARIABLE vPos
Ev == Events[vPos]
Is(op) == vPos <= Len(Events) /\ Ev.op = op /\ vPos' = vPos + 1
TReset == Is("reset")
TOpen == Is("open") /\ (IF Ev.r.ok = 1 THEN TRUE ELSE PrintT(<<"MISMATCH", vPos, "specification:", "a dictionary", "code:", Ev.why>>) /\ FALSE)
TVoc == Is("voc") /\ (IF Right(Ev.x, Ev.r, Ev.idt, Ev.id2t) THEN TRUE
                      ELSE PrintT(<<"MISMATCH", vPos, "specification:", Ev.x, "code:", Of(Ev.r, Ev.idt, Ev.id2t)>>) /\ FALSE)
\* the phrases of the autocorrect file are reported with their corrections (error 1), and nothing else is
Corrections(r) == SelectSeq(r, LAMBDA e : e.code = 1)
TAuto == Is("auto") /\ (LET a == Corrections(Ev.r)
                        IN IF a = Ev.x THEN TRUE ELSE PrintT(<<"MISMATCH", vPos, "specification:", Ev.x, "code:", a>>) /\ FALSE)
TraceInit == vPos = 1
TraceNext == TReset \/ TOpen \/ TVoc \/ TAuto
TraceSpec == TraceInit /\ [][TraceNext]_vPos
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN
                 n = Len(Events) \/ (PrintT(<<"ACCEPTED-EVENTS", n>>) /\ FALSE)
=============================================================================
