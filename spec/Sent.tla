-------------------------------- MODULE Sent --------------------------------
(* Sentence boundaries.  NextSentence(t, Known(_)) is <<type, length>>: the  *)
(* length of the first sentence of the text and what kind of boundary        *)
(* follows; Known(w) tells whether the lexicon recognises w (a word with its *)
(* dot) in some letter case.                                                 *)
EXTENDS Tokens

SENT_NONE == 0  SENT_NO_START == 1  SENT_PROBABLE == 2  SENT_POSSIBLE == 3

DotBelongsTo(w, Known(_)) ==          \* w: a word and the dot after it
    LET n == Len(w) IN
    /\ n >= 2
    /\ \/ n = 2 /\ IsUpper(w[1])
       \/ \A i \in 1..(n - 1) : w[i] \in {DOT, HYPHEN} \/ IsDigitCh(w[i])
       \/ Known(w)

NextSentence(t, Known(_)) ==
    LET n == Len(t)
        RECURSIVE S(_, _)
        \* p: index of the token; s: end found, in quotation, end is a dot word, other doubt,
        \* type and start of the previous token
        S(p, s) ==
          IF p > n THEN <<SENT_NONE, n>>
          ELSE LET tok == NextToken(From(t, p), FALSE)
                   c == t[p]
                   next(u) == S(p + tok[2], [u EXCEPT !.pt = tok[1], !.ps = p])
               IN
               IF s.end /\ ~s.quo
               THEN IF tok[1] = TOK_WHITE THEN next(s)
                    ELSE <<IF s.dot \/ s.may \/ (s.pt # TOK_WHITE /\ tok[1] = TOK_WORD)
                           THEN SENT_POSSIBLE ELSE SENT_PROBABLE, p - 1>>
               ELSE IF tok[1] # TOK_PUNCT THEN next(s)
               ELSE CASE c \in {33, 63} -> next([s EXCEPT !.end = TRUE, !.may = @ \/ s.quo])
                      [] (c = DOT /\ tok[2] = 3) \/ c \in {8230, COLON} -> next([s EXCEPT !.end = TRUE, !.may = TRUE])
                      [] c = DOT -> next([s EXCEPT !.end = TRUE,
                                            !.dot = @ \/ (s.pt = TOK_WORD /\ DotBelongsTo(Sub(t, s.ps, p), Known))])
                      [] IsQuote(c) \/ c = 8220 ->
                           IF s.quo /\ p < n /\ t[p + 1] = COMMA
                           THEN next([s EXCEPT !.quo = FALSE, !.end = FALSE, !.may = FALSE])
                           ELSE next([s EXCEPT !.quo = ~@])
                      [] OTHER -> next(s)
    IN S(1, [end |-> FALSE, quo |-> FALSE, dot |-> FALSE, may |-> FALSE, pt |-> TOK_NONE, ps |-> 1])

Sentences(t, Known(_)) ==
    LET RECURSIVE K(_)
        K(p) == LET x == NextSentence(From(t, p), Known) IN
                IF x[1] = SENT_NONE \/ x[2] = 0 THEN <<x>> ELSE <<x>> \o K(p + x[2])
    IN K(1)

SentenceLaws(t, Known(_)) ==
    LET ss == Sentences(t, Known)
        Total[i \in Nat] == IF i = 0 THEN 0 ELSE Total[i - 1] + ss[i][2]
    IN /\ Total[Len(ss)] = Len(t)
       /\ ss[Len(ss)][1] = SENT_NONE
       /\ \A i \in 1..(Len(ss) - 1) : ss[i][1] \in {SENT_PROBABLE, SENT_POSSIBLE} /\ ss[i][2] >= 1
       \* a sentence never starts with white space, unless the text does
       /\ \A i \in 1..(Len(ss) - 1) : Total[i] + 1 <= Len(t) /\ ~IsWhite(t[Total[i] + 1])
=============================================================================
