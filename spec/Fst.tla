-------------------------------- MODULE Fst ---------------------------------
(* Transducers.  F.t[s] is the sequence of transitions of state s in the     *)
(* order of the file; the start state is 1.  A transition has a kind k       *)
(* ("chr": reads character c; "eps": reads nothing; "flag": reads nothing,   *)
(* operation op on feature f with value v; "final"; "never"), an output      *)
(* symbol o (empty or one item), a target state and a weight.                *)
EXTENDS Sugg

FLAG_NONE == ""
\* value of feature f in fl (features that were never set are neutral)
FlagValue(fl, f) == IF f \in DOMAIN fl THEN fl[f] ELSE FLAG_NONE
FlagSet(fl, f, v) == (f :> v) @@ fl
\* the flags after the operation: a sequence of length one, or none if it does not allow the path
FlagOp(fl, t) ==
    LET cur == FlagValue(fl, t.f) IN
    CASE t.op = "P" -> <<FlagSet(fl, t.f, t.v)>>
      [] t.op = "C" -> <<FlagSet(fl, t.f, FLAG_NONE)>>
      [] t.op = "U" -> IF cur = FLAG_NONE THEN <<FlagSet(fl, t.f, t.v)>> ELSE IF cur = t.v THEN <<fl>> ELSE <<>>
      [] t.op = "R" -> IF (t.v = "" /\ cur # FLAG_NONE) \/ (t.v # "" /\ cur = t.v) THEN <<fl>> ELSE <<>>
      [] t.op = "D" -> IF (t.v = "" /\ cur # FLAG_NONE) \/ (t.v # "" /\ cur = t.v) THEN <<>> ELSE <<fl>>

\* can t be taken with k characters of w read and flags fl?  The flags afterwards, or none
Taken(t, w, k, fl) ==
    CASE t.k = "chr" -> IF k < Len(w) /\ w[k + 1] = t.c THEN <<fl>> ELSE <<>>
      [] t.k = "eps" -> <<fl>>
      [] t.k = "flag" -> FlagOp(fl, t)
      [] OTHER -> <<>>

\* every accepting path that reads w, in order: outputs and weights
RECURSIVE PathsFrom(_, _, _, _, _, _, _)
PathsFrom(F, w, s, k, fl, out, wt) ==
    LET row == F.t[s]
        one(t) == IF t.k = "final" THEN (IF k = Len(w) THEN <<[out |-> out, wt |-> wt + t.w]>> ELSE <<>>)
                  ELSE LET g == Taken(t, w, k, fl) IN
                       IF g = <<>> THEN <<>>
                       ELSE PathsFrom(F, w, t.to, IF t.k = "chr" THEN k + 1 ELSE k, g[1], out \o t.o, wt + t.w)
    IN FoldLeft(LAMBDA acc, t : acc \o one(t), <<>>, row)
Paths(F, w) == IF \E i \in 1..Len(w) : ~(\E j \in 1..Len(F.alpha) : F.alpha[j] = w[i]) THEN <<>>
               ELSE PathsFrom(F, w, 1, 0, <<>>, <<>>, 0)

(* Genuineness of an output even when there are endlessly many paths: the    *)
(* configurations <<state, characters read, items written, flags>> that can  *)
(* be reached while writing a prefix of out.                                 *)
RECURSIVE Reach(_, _, _, _, _)
Reach(F, w, out, seen, new) ==
    IF new = {} THEN seen ELSE
    LET next == UNION {
            {<<F.t[c[1]][j].to, IF F.t[c[1]][j].k = "chr" THEN c[2] + 1 ELSE c[2], c[3] + Len(F.t[c[1]][j].o), Taken(F.t[c[1]][j], w, c[2], c[4])[1]>> :
                j \in {j \in 1..Len(F.t[c[1]]) : /\ F.t[c[1]][j].k \notin {"final", "never"}
                                                 /\ Taken(F.t[c[1]][j], w, c[2], c[4]) # <<>>
                                                 /\ LET o == F.t[c[1]][j].o IN
                                                    o = <<>> \/ (c[3] < Len(out) /\ o[1] = out[c[3] + 1])}} : c \in new}
        fresh == next \ seen
    IN Reach(F, w, out, seen \cup fresh, fresh)
Genuine(F, w, out) ==
    LET start == {<<1, 0, 0, <<>>>>}
        R == Reach(F, w, out, start, start)
    IN \E c \in R : c[2] = Len(w) /\ c[3] = Len(out) /\ \E j \in 1..Len(F.t[c[1]]) : F.t[c[1]][j].k = "final"

MAX_RESULTS == 99
\* what the generic analyser returns (long enumerations are cut)
FstAnswer(F, w) == LET p == Paths(F, LowerStr(w)) IN Upto(p, Lesser(Len(p), MAX_RESULTS))

(* A spelling checker that accepts the words of a transducer; words that are *)
(* only right with a capital letter are recognised.                          *)
FstVerdict(F, w) == IF Paths(F, w) # <<>> THEN OK
                    ELSE IF w # <<>> /\ IsLower(w[1]) /\ Paths(F, SetAt(w, 1, ToUpper(w[1]))) # <<>> THEN CAP_FIRST
                    ELSE FAILED

(* Suggestions by a model of errors: everything that it makes of the word    *)
(* and that the speller knows, weighed by both.                              *)
CharsOf(out) == Eager([i \in 1..Len(out) |-> out[i].c])
ErrCandidates(E, F, w) ==
    LET p == Paths(E, w)
        \* the least weight of each output
        least == FoldLeft(LAMBDA acc, q : LET x == CharsOf(q.out) IN
                              IF x \in DOMAIN acc /\ acc[x] <= q.wt THEN acc ELSE (x :> q.wt) @@ acc, <<>>, p)
        via == Once([x \in DOMAIN least |-> Paths(F, x)])
    IN [x \in {y \in DOMAIN least : via[y] # <<>>} |-> least[x] + via[x][1].wt]
\* r: the suggestions given, best first; ties may be in any order
RECURSIVE BestFirst(_, _, _)
BestFirst(r, C, show) ==
    IF r = <<>> THEN TRUE
    ELSE LET best == {x \in DOMAIN C : \A y \in DOMAIN C : C[x] <= C[y]}
         IN \E x \in best : show[x] = r[1] /\ BestFirst(Tail(r), [y \in DOMAIN C \ {x} |-> C[y]], show)
SuggestionsFit(E, F, word, o, r) ==
    IF NoSuggestions(word, o) THEN r = <<>>
    ELSE LET C == Once(ErrCandidates(E, F, SuggWord(word, o)))
         IN Len(r) = Lesser(5, Cardinality(DOMAIN C)) /\ BestFirst(r, C, Once([x \in DOMAIN C |-> Presented(word, o, x)]))
=============================================================================
