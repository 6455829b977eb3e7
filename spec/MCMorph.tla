------------------------------- MODULE MCMorph ------------------------------
(* The laws of analyses, hyphenation and spelling for every word of the      *)
(* lexicons given.                                                           *)
EXTENDS Lexicons
VARIABLES vD, vI
Init == vD \in DOMAIN DictFile /\ vI \in 1..Len(DictFile[vD].words)
Next == FALSE /\ UNCHANGED <<vD, vI>>
W == DictFile[vD].words[vI].w
A == Lex[vD][W]
Laws == \A k \in 1..Len(A) : AnalysisLaws(W, A[k])
HyphenOptions == [ugly : BOOLEAN, unknown : BOOLEAN, min : {2, 4}, ignoreDot : {FALSE}]
HyphenLaws == \A o \in HyphenOptions : \A p \in {Hyphenate(W, o, Lex[vD])} : PatternLaws(W, p, o)
\* taking the separators out again gives the word, but for characters replaced by a separator
InsertLaws == \A o \in HyphenOptions : \A p \in {Hyphenate(W, o, Lex[vD])} : \A y \in {<<>>, <<173>>, <<63, 33, 63>>} :
    LET keep == InsertHyphens(W, p, y, FALSE)
        change == InsertHyphens(W, p, y, TRUE)
        count(c, s) == Cardinality({k \in 1..Len(s) : s[k] = c})
        breaks == count(HYPHEN, p)
        replaced == Cardinality({k \in 1..Len(p) : p[k] = EQ /\ W[k] # HYPHEN})
    IN /\ Len(keep) = Len(W) + breaks * Len(y)
       /\ Len(change) = Len(W) - replaced + (breaks + replaced) * Len(y)
       /\ SelectSeq(keep, LAMBDA c : c \notin {173, 63, 33}) = W
       /\ Len(y) = 0 => keep = W
\* a word of the lexicon is accepted in the case its structure requires
Cased(a) == LET q == NoEq(a.st) IN [k \in 1..Len(W) |-> IF k <= Len(q) /\ q[k] \in {ChI, ChJ} THEN ToUpper(W[k]) ELSE W[k]]
SpellLaws == \A k \in 1..Len(A) : A[k].st # NONE => SpellAnswer(Cased(A[k]), DefaultOptions, Lex[vD]) = 1
\* the ways to write a word with combining marks, ligatures and typographic hyphens and apostrophes
Decompose(w) == FlattenSeq([k \in 1..Len(w) |-> LET D == {t \in Compose : t[3] = w[k]} IN
                    IF D = {} THEN <<w[k]>> ELSE LET t == CHOOSE x \in D : TRUE IN <<t[1], t[2]>>])
Typeset(w, y) == [k \in 1..Len(w) |-> IF w[k] = APOS THEN 8217 ELSE IF w[k] = HYPHEN THEN y ELSE w[k]]
Ligate(w) == LET L[k \in Nat] == IF k > Len(w) THEN <<>>
                    ELSE IF k < Len(w) /\ <<w[k], w[k + 1]>> = <<102, 105>> THEN <<64257>> \o L[k + 2]
                    ELSE <<w[k]>> \o L[k + 1] IN L[1]
Equivalent == LET w == W IN {Decompose(w), Typeset(w, 8208), Typeset(w, 8209), Ligate(w), Typeset(Decompose(w), 8209)}
EquivalenceLaws == LET v == SpellAnswer(W, DefaultOptions, Lex[vD]) IN
    Normalise(W) = W => \A w \in Equivalent : Normalise(w) = W /\ SpellAnswer(w, DefaultOptions, Lex[vD]) = v
=============================================================================
