-------------------------------- MODULE Att ---------------------------------
(* Transducers in AT&T text format, as the dictionary compiler reads them.   *)
(* A line is a sequence of fields.  A field has a number n (-1 if it is not  *)
(* a natural number), a weight w with num = 1 if it is a number that can be  *)
(* stored as a weight, and, read as a symbol, a kind k ("eps", "chr",        *)
(* "flag", "tag", "bad") with c (character), op, f, v (flag), tag.           *)
EXTENDS Fst

MAX_SYMBOLS == 65535

\* what a line says: "final", "arc", or "bad"
LineKind(l, weighted) ==
    LET n == Len(l) IN
    IF n = 0 THEN "bad"
    ELSE IF l[1].n < 0 THEN "bad"
    ELSE IF n = 1 THEN "final"
    ELSE IF weighted /\ n = 2 THEN (IF l[2].num = 1 THEN "final" ELSE "bad")
    ELSE IF l[2].n < 0 THEN "bad"
    ELSE IF n < (IF weighted THEN 5 ELSE 4) THEN "bad"
    ELSE IF l[3].k = "bad" \/ l[4].k = "bad" THEN "bad"
    ELSE IF weighted /\ l[5].num # 1 THEN "bad"
    ELSE "arc"

\* number of states if they are introduced one after the other, else -1
RECURSIVE StatesIn(_, _, _)
StatesIn(ls, i, n) == IF i > Len(ls) THEN n
                      ELSE IF ls[i][1].n > n THEN -1
                      ELSE StatesIn(ls, i + 1, IF ls[i][1].n = n THEN n + 1 ELSE n)

Symbols(ls, weighted) == {ls[i][3] : i \in {j \in 1..Len(ls) : LineKind(ls[j], weighted) = "arc"}}
                         \cup {ls[i][4] : i \in {j \in 1..Len(ls) : LineKind(ls[j], weighted) = "arc"}}

\* more: number of further symbols, each on a transition of its own
Compiles(ls, weighted, more) ==
    /\ \A i \in 1..Len(ls) : LineKind(ls[i], weighted) # "bad"
    /\ LET n == StatesIn(ls, 1, 0) IN
       /\ n >= 0
       /\ \A i \in 1..Len(ls) : LineKind(ls[i], weighted) = "arc" => ls[i][2].n < n
    /\ more + Cardinality({[s EXCEPT !.n = 0, !.w = 0, !.num = 0] : s \in {x \in Symbols(ls, weighted) : x.k # "eps"}}) + 1 <= MAX_SYMBOLS

\* the transducer that the text describes; transitions of a state in the order of the lines
Meaning(ls, weighted) ==
    LET n == StatesIn(ls, 1, 0)
        out(s) == CASE s.k = "chr" -> <<[t |-> "", c |-> s.c]>> [] s.k = "tag" -> <<[t |-> s.tag, c |-> 0]>> [] OTHER -> <<>>
        tr(l) == IF LineKind(l, weighted) = "final"
                 THEN [k |-> "final", c |-> 0, o |-> <<>>, to |-> 0, w |-> IF weighted /\ Len(l) = 2 THEN l[2].w ELSE 0, op |-> "", f |-> "", v |-> ""]
                 ELSE [k |-> IF l[3].k = "tag" THEN "never" ELSE l[3].k, c |-> l[3].c, o |-> out(l[4]), to |-> l[2].n + 1,
                       w |-> IF weighted THEN l[5].w ELSE 0, op |-> l[3].op, f |-> l[3].f, v |-> l[3].v]
        row(s) == LET I == SelectSeq(Eager([i \in 1..Len(ls) |-> i]), LAMBDA i : ls[i][1].n = s - 1)
                  IN Eager([i \in 1..Len(I) |-> tr(ls[I[i]])])
        ch(s) == IF s.k = "chr" THEN {s.c} ELSE {}
    IN [t |-> Eager([s \in 1..n |-> row(s)]),
        alpha |-> SetToSeq(UNION {ch(s) : s \in Symbols(ls, weighted)})]

\* the same elements, in any order
Bag(s) == LET S == {s[i] : i \in 1..Len(s)} IN [x \in S |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
=============================================================================
