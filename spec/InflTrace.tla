----------------------------- MODULE InflTrace ------------------------------
(* Recorded calls of the inflection module (tools/pylib) checked against     *)
(* Infl.tla: tables read, words inflected, harmony of word forms.            *)
EXTENDS Infl, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.EVENTS)
Tables == JsonDeserialize(IOEnv.DICTS)
VARIABLES vPos, vRead            \* tables that have been read
vars == <<vPos, vRead>>

Ev == Events[vPos]
Is(op) == vPos <= Len(Events) /\ Ev.op = op /\ vPos' = vPos + 1
Same(exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", vPos, "specification:", exp, "code:", got>>) /\ FALSE
Answer(exp) == Same(0, Ev.n) /\ Same(exp, Ev.r)

\* what is seen of the classes of a table
Seen(t) == [sm |-> t.sm, kotus |-> t.kotus, rm |-> t.rm, grad |-> t.grad, note |-> t.note,
            rules |-> Eager([i \in 1..Len(t.rules) |-> <<t.rules[i].name, t.rules[i].ch, t.rules[i].prio>>])]
TReset == Is("reset") /\ vRead' = {}
TTypes == Is("itypes") /\ LET ts == Tables[Ev.d].types IN Answer(Eager([i \in 1..Len(ts) |-> Seen(ts[i])]))
          /\ vRead' = vRead \cup {Ev.d}
TInfl == Is("infl") /\ Ev.d \in vRead /\ Answer(Inflect(Tables[Ev.d].types, Ev.t, Ev.c, Ev.g, Ev.v)) /\ UNCHANGED vRead
TKotus == Is("kotus") /\ Ev.d \in vRead /\ Answer(KotusGrade(StemOf(Tables[Ev.d].types[Ev.i], Ev.t), Ev.g)) /\ UNCHANGED vRead
THarm == Is("harm") /\ Answer(Harmony(Ev.t)) /\ UNCHANGED vRead
THarm1 == Is("harm1") /\ Answer(SimpleHarmony(Ev.t)) /\ UNCHANGED vRead

TraceInit == vPos = 1 /\ vRead = {}
TraceNext == TReset \/ TTypes \/ TInfl \/ TKotus \/ THarm \/ THarm1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN
                 n = Len(Events) \/ (PrintT(<<"ACCEPTED-EVENTS", n>>) /\ FALSE)
=============================================================================
