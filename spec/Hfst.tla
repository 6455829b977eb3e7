-------------------------------- MODULE Hfst --------------------------------
(* Spellers in ZHFST archives: an acceptor of weighted words and an error    *)
(* model, here a number of weighted replacements of one string by another.   *)
EXTENDS Sugg

\* V: weight of each accepted word.  Words are accepted as they are written; a capital at the beginning, or capitals
\* throughout, may be asked for where the word has none.
AllUp(w) == MapSeq(w, ToUpper)
HfstVerdict(w, o, V) ==
    IF w \in DOMAIN V THEN OK
    ELSE IF w = <<>> \/ ~IsLower(w[1]) THEN FAILED
    ELSE IF UpFirst(w) \in DOMAIN V THEN CAP_FIRST
    ELSE IF o.allUpper /\ CaseType(UpFirst(w)) = "first" /\ AllUp(w) \in DOMAIN V THEN CAP_ERROR
    ELSE FAILED

\* the costs of making v of w, with at most k replacements that do not overlap
RECURSIVE Costs(_, _, _, _)
Costs(w, v, k, R) ==
    (IF w = <<>> /\ v = <<>> THEN {0} ELSE {})
    \cup (IF w # <<>> /\ v # <<>> /\ w[1] = v[1] THEN Costs(From(w, 2), From(v, 2), k, R) ELSE {})
    \cup (IF k = 0 THEN {}
          ELSE UNION {{R[i].wt + c : c \in Costs(From(w, Len(R[i].a) + 1), From(v, Len(R[i].b) + 1), k - 1, R)}
                      : i \in {j \in 1..Len(R) : StartsWith(w, R[j].a) /\ StartsWith(v, R[j].b)}})
\* the least cost of each accepted word that can be reached
HfstCandidates(w, V, k, R) ==
    LET costs == Once([v \in DOMAIN V |-> Costs(w, v, k, R)])
    IN Once([v \in {x \in DOMAIN V : costs[x] # {}} |-> V[v] + CHOOSE a \in costs[v] : \A b \in costs[v] : a <= b])
\* r: what was given, best first.  Where the word has a capital, words that differ in their first capital count as one.
RECURSIVE HfstBestFirst(_, _, _, _)
HfstBestFirst(r, C, show, fold) ==
    IF r = <<>> THEN TRUE
    ELSE LET best == {x \in DOMAIN C : \A y \in DOMAIN C : C[x] <= C[y]}
             left(x) == {y \in DOMAIN C : y # x /\ ~(fold /\ UpFirst(y) = UpFirst(x))}
         IN \E x \in best : (show[x] = r[1] /\ HfstBestFirst(Tail(r), [y \in left(x) |-> C[y]], show, fold))
HfstSuggestionsFit(V, k, R, word, o, r) ==
    IF NoSuggestions(word, o) THEN r = <<>>
    ELSE LET w == SuggWord(word, o)
             C == HfstCandidates(w, V, k, R)
             fold == CaseType(w) = "first"
             kinds == Cardinality({IF fold THEN UpFirst(x) ELSE x : x \in DOMAIN C})
         IN Len(r) = Lesser(MAX_SUGGESTIONS, kinds)
            /\ HfstBestFirst(r, C, Once([x \in DOMAIN C |-> Presented(word, o, x)]), fold)
=============================================================================
