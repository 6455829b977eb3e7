------------------------------- MODULE MCSugg -------------------------------
(* What every list of suggestions satisfies, for misspellings of the words   *)
(* of the lexicons given.                                                    *)
EXTENDS Lexicons
CONSTANT Typos          \* misspellings of each kind and word
VARIABLES vD, vI, vK, vN
Kinds == {"asis", "vowels", "near1", "delete", "hyphen", "double", "insert1", "swap", "deltwo", "near5", "ocr"}
Init == vD \in DOMAIN DictFile /\ vI \in 1..Len(DictFile[vD].words) /\ vK \in Kinds /\ vN \in 1..Typos
Next == FALSE /\ UNCHANGED <<vD, vI, vK, vN>>
Some == LET w == DictFile[vD].words[vI].w  c == CandsOf(vK, w) IN
        IF c = <<>> THEN w ELSE c[1 + ((vI * 7 + vN * 31) % Len(c))]
Options == {DefaultOptions, [DefaultOptions EXCEPT !.ignoreDot = TRUE], [DefaultOptions EXCEPT !.ocr = TRUE]}
Shapes(w) == {w, UpFirst(w), MapSeq(w, ToUpper), Append(w, DOT)}
\* every word of a suggestion is right by itself
WordsOf(x) == LET sp == {k \in 1..Len(x) : x[k] = 32} IN
              IF sp = {} THEN {x} ELSE LET k == CHOOSE k \in sp : TRUE IN {Upto(x, k - 1), From(x, k + 1)}
Right(x, o) == SpellAnswer(x, [o EXCEPT !.ignoreDot = TRUE], Lex[vD]) = 1
Law(what, p, w, o, s) == IF p THEN TRUE ELSE PrintT(<<"LAW", what, w, o, s>>) /\ FALSE
SuggestionLaws == \A o \in Options : \A w \in Shapes(Some) :
    LET s == Suggestions(w, o, Lex[vD]) IN
    /\ Law("at most five", Len(s) <= 5, w, o, s)
    /\ Law("words", \A i \in 1..Len(s) : \A x \in WordsOf(s[i]) : Right(x, o), w, o, s)
    /\ Law("a word of the lexicon is suggested", Len(w) > 2 /\ Ana(Lex[vD], w) # <<>> => s # <<>>, w, o, s)
    /\ Law("capital", CaseType(w) = "first" => \A i \in 1..Len(s) : CaseType(s[i]) # "lower", w, o, s)
    /\ Law("dot", o.ignoreDot /\ Len(w) > 2 /\ w[Len(w)] = DOT => \A i \in 1..Len(s) : s[i][Len(s[i])] = DOT, w, o, s)
=============================================================================
