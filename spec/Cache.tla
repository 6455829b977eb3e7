------------------------------- MODULE Cache --------------------------------
(* Design of the caches of a handle: verdicts of the speller on short words  *)
(* in a table addressed by a hash, and the errors of the last paragraph.     *)
(* The caches are right when whatever they hold is what would be computed    *)
(* now: then the handle answers like one without any memory (module Handle). *)
EXTENDS Lexicons

CONSTANT Forgetful      \* are cached results dropped when an option changes? (FALSE shows what goes wrong otherwise)

Input == JsonDeserialize(IOEnv.CACHE)       \* d: dictionary, words, paras
W == Input.words
P == Input.paras
TT == Lex[Input.d]
VARIABLES vO,           \* option values
          vSize,        \* size parameter of the table, -1: none
          vSlots,       \* slot -> word and verdict
          vGram,        \* paragraph and its errors, or none
          vHist         \* calls so far (not part of the state)
vars == <<vO, vSize, vSlots, vGram, vHist>>
View == <<vO, vSize, vSlots, vGram>>

Toggles == {11, 12, 13, 16}
Flag(o, k) == CASE k = 11 -> o.extraHyphens [] k = 12 -> o.missingHyphens [] k = 13 -> o.titles [] k = 16 -> o.bulleted
AllOptions == {[DefaultOptions EXCEPT !.extraHyphens = a, !.missingHyphens = b, !.titles = c, !.bulleted = d] : a, b, c, d \in BOOLEAN}

\* what a handle without memory computes
FreshVerdict == Once([o \in AllOptions |-> Once([i \in 1..Len(W) |-> HyphenAware(W[i], o, LAMBDA x : LexVerdict(x, o, TT))])])
FreshErrors == Once([o \in AllOptions |-> Once([i \in 1..Len(P) |-> GrammarAnswer(P[i], o, TT, DictFile[Input.d].auto)])])

Orders == <<3, 5, 6, 7, 7, 7, 7, 7, 7, 7>>
HashOf(w, order) == FoldLeft(LAMBDA h, c : (h * 37 + c) % (2 ^ order), 0, w)
SlotOf(i) == <<Len(W[i]), HashOf(W[i], Orders[Len(W[i])] + vSize)>>
Cacheable(i) == vSize >= 0 /\ Len(W[i]) \in 1..10

Init == vO = DefaultOptions /\ vSize = 0 /\ vSlots = <<>> /\ vGram = <<>> /\ vHist = <<>>
Note(call) == vHist' = Append(vHist, call)

Hit(i) == Cacheable(i) /\ SlotOf(i) \in DOMAIN vSlots /\ vSlots[SlotOf(i)].w = i
Answered(i) == IF Hit(i) THEN vSlots[SlotOf(i)].r ELSE FreshVerdict[vO][i]
SpellWord(i) ==
    /\ vSlots' = IF Cacheable(i) /\ ~Hit(i) /\ Answered(i) \in {OK, CAP_FIRST}
                 THEN (SlotOf(i) :> [w |-> i, r |-> Answered(i)]) @@ vSlots ELSE vSlots
    /\ Note(<<"spell", i>>) /\ UNCHANGED <<vO, vSize, vGram>>
Check(p) == /\ vGram' = IF vGram # <<>> /\ vGram[1] = p THEN vGram ELSE <<p, FreshErrors[vO][p]>>
            /\ Note(<<"gram", p>>) /\ UNCHANGED <<vO, vSize, vSlots>>
Set(k) == /\ vO' = SetBoolOption(vO, k, IF Flag(vO, k) THEN 0 ELSE 1)
          /\ vSlots' = IF Forgetful /\ k \in {11, 12} THEN <<>> ELSE vSlots
          /\ vGram' = IF Forgetful THEN <<>> ELSE vGram
          /\ Note(<<"set", k, IF Flag(vO, k) THEN 0 ELSE 1>>) /\ UNCHANGED vSize
Resize(n) == /\ vSize' = n /\ vSlots' = IF n = vSize THEN vSlots ELSE <<>>
             /\ Note(<<"size", n>>) /\ UNCHANGED <<vO, vGram>>
Next == \/ \E i \in 1..Len(W) : SpellWord(i)
        \/ \E p \in 1..Len(P) : Check(p)
        \/ \E k \in Toggles : Set(k)
        \/ \E n \in {-1, 0, 1} : Resize(n)

\* the caches hold what would be computed now
Faithful == /\ \A s \in DOMAIN vSlots : vSlots[s].r = FreshVerdict[vO][vSlots[s].w]
            /\ vGram = <<>> \/ vGram[2] = FreshErrors[vO][vGram[1]]
\* so every answer is that of a handle without memory
Memoryless == /\ \A i \in 1..Len(W) : Answered(i) = FreshVerdict[vO][i]
Emit == PrintT(<<"HISTORY", ToJson(vHist')>>)
=============================================================================
