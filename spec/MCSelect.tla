------------------------------ MODULE MCSelect ------------------------------
(* All searches over up to four dictionaries in up to three places.          *)
EXTENDS Select
CONSTANT Tags, N
VARIABLES vPlan         \* which tag (number) lies at which place, in order
TagSeq == SetToSeq(Tags)
Init == vPlan = <<>>
Next == Len(vPlan) < N /\ \E k \in 1..Len(TagSeq), p \in 1..3 :
            /\ \A i \in 1..Len(vPlan) : vPlan[i] # <<k, p>>
            /\ (IF vPlan = <<>> THEN TRUE ELSE LET last == vPlan[Len(vPlan)] IN last[2] < p \/ (last[2] = p /\ last[1] < k))
            /\ vPlan' = Append(vPlan, <<k, p>>)
Place == <<Text("a"), Text("b"), Text("h/.voikko")>>
Entry(i) == [dir |-> Text("mor-x"), lines |-> <<FORMAT, Text("Language: ") \o Text(TagSeq[vPlan[i][1]])>>, d |-> ToString(i)]
At(p) == LET I == SelectSeq(Eager([i \in 1..Len(vPlan) |-> i]), LAMBDA i : vPlan[i][2] = p) IN Eager([j \in 1..Len(I) |-> Entry(I[j])])
W == [home |-> Text("h"), sys |-> <<>>, locs |-> Eager([p \in 1..3 |-> [p |-> Place[p], e |-> At(p)]])]
L == Listing(W, Text("a"), Text("b"))
NoEnv == [set |-> 0, v |-> <<>>]
\* each tag is listed exactly once, and it is the dictionary of the first place that has it
EachOnce == LET l == L IN
    /\ {Key(TagOf(l[i])) : i \in 1..Len(l)} = {Key(TagOf(Entry(i))) : i \in 1..Len(vPlan)}
    /\ \A i, j \in 1..Len(l) : Key(TagOf(l[i])) = Key(TagOf(l[j])) => i = j
    /\ \A i \in 1..Len(l), j \in 1..Len(vPlan) : Key(TagOf(l[i])) = Key(TagOf(Entry(j))) =>
           \E m \in 1..j : l[i] = Entry(m)
\* asking for the tag of a listed dictionary selects a dictionary with that tag, and exactly that one if it names a variant
Reachable == LET l == L IN \A i \in 1..Len(l) :
    LET t == TagOf(l[i])  c == Chosen(W, Key(t), Text("a"), Text("b"), NoEnv)
    IN c # NOTHING /\ TagOf(c).lang = t.lang /\ TagOf(c).script = t.script
       /\ (t.use \notin {<<>>, STANDARD} => c = l[i])
\* without a variant, the default of the language is chosen, or else its standard dictionary
DefaultFirst == LET l == L  c == Chosen(W, FINNISH, Text("a"), Text("b"), NoEnv)
                    Fi == {i \in 1..Len(l) : TagOf(l[i]).lang = FINNISH /\ TagOf(l[i]).script = <<>>}
                    with(u) == {i \in Fi : TagOf(l[i]).use = u}
                IN IF Fi = {} THEN c = NOTHING
                   ELSE /\ c # NOTHING /\ TagOf(c).lang = FINNISH
                        /\ ((with(DEFAULT) # {} /\ ~(\E i \in 1..Len(l) : TagOf(l[i]).lang = FINNISH /\ TagOf(l[i]).script # <<>>)) => TagOf(c).use = DEFAULT)
                        /\ ((with(STANDARD) # {} /\ DefaultOf(l, FINNISH) = 0) => TagOf(c).use = STANDARD)
=============================================================================
