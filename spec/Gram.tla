-------------------------------- MODULE Gram --------------------------------
(* Grammar checking of a paragraph: sentences, tokens with what the lexicon  *)
(* tells about them, and the rules.  The errors of a paragraph are a         *)
(* sequence of [code, pos, len, sugg], ordered by position; errors at the    *)
(* same position come in the order of the rules.                             *)
EXTENDS Sugg, Sent

MAX_TOKENS == 500       \* in a sentence; a paragraph with a longer one is not checked
MAX_SENTENCES == 200    \* the rest of a paragraph is not checked

G_SPELLING == 1  G_WHITE == 2  G_SPACE == 3  G_COMMA == 4  G_START == 5  G_LOWER == 6  G_UPPER == 7  G_REPEAT == 8
G_END == 9  G_QUOTE_END == 10  G_FOREIGN == 11  G_PAREN == 12  G_NEGATIVE == 13  G_A == 14  G_MA == 15
G_CONJ == 16  G_NOVERB == 17  G_VERBS == 18
Err(c, p, n, s) == [code |-> c, pos |-> p, len |-> n, sugg |-> s]

----------------------------------------------------------------------------
(* Words as the rules see them                                               *)
Is1(a, k, v) == k \in DOMAIN a.at /\ a.at[k] = v
HasAt(a, k) == k \in DOMAIN a.at
Verbal(v) == IF v = "A-infinitive" THEN "A" ELSE IF v = "MA-infinitive" THEN "MA" ELSE ""
AUML == 228

WordInfo(w, T) ==
    LET as == Ana(T, Without(w, SOFT))
        n == Len(as)
        I == 1..n
        lowerStart(a) == Len(a.st) >= 2 /\ a.st[2] \in {ChP, ChQ}
        conj(a) == Is1(a, "CLASS", "sidesana") \/ (Is1(a, "CLASS", "kieltosana") /\ w[Len(w)] = AUML)
        verb(a) == Is1(a, "CLASS", "teonsana")
        neg(a) == Is1(a, "CLASS", "kieltosana")
        moodIs(a, m) == Is1(a, "MOOD", m)
        \* not a form that could follow a negative verb
        positive(a) == verb(a) /\ Is1(a, "NEGATIVE", "false")
                       /\ ~((~HasAt(a, "MOOD") \/ moodIs(a, "conditional")) /\ (~HasAt(a, "PERSON") \/ Is1(a, "PERSON", "3")))
        main(a) == verb(a) /\ moodIs(a, "indicative")
        maybeMain(a) == ~HasAt(a, "CLASS")
                        \/ (verb(a) /\ ~moodIs(a, "A-infinitive") /\ ~moodIs(a, "E-infinitive") /\ ~Is1(a, "NEGATIVE", "true"))
        req(a) == IF HasAt(a, "REQUIRE_FOLLOWING_VERB") THEN Verbal(a.at["REQUIRE_FOLLOWING_VERB"]) ELSE ""
        mood(a) == IF HasAt(a, "MOOD") THEN Verbal(a.at["MOOD"]) ELSE ""
        maton(a) == Is1(a, "PARTICIPLE", "agent") /\ Is1(a, "SIJAMUOTO", "vajanto")
        \* the infinitive that all analyses require; an analysis may also settle that none is
        F[i \in Nat] == IF i = 0 THEN "" ELSE
                        LET r == req(as[i]) IN IF r = "" \/ i = 1 THEN r ELSE IF F[i - 1] # r THEN "" ELSE F[i - 1]
        \* the infinitive that the word is: [seen, type]
        V[i \in Nat] == IF i = 0 THEN <<FALSE, "">> ELSE
                        LET p == V[i - 1]  m == mood(as[i]) IN
                        IF m # "" THEN (IF ~p[1] THEN <<TRUE, m>> ELSE IF p[2] # m THEN <<TRUE, "">> ELSE p)
                        ELSE IF maton(as[i]) THEN <<p[1], "">> ELSE p
    IN [valid |-> n > 0,
        lcase |-> \A i \in I : lowerStart(as[i]),
        genitive |-> \E i \in I : ~lowerStart(as[i]) /\ Is1(as[i], "CLASS", "paikannimi") /\ Is1(as[i], "SIJAMUOTO", "omanto"),
        geo |-> \E i \in I : Is1(as[i], "POSSIBLE_GEOGRAPHICAL_NAME", "true"),
        maybeConj |-> \E i \in I : conj(as[i]), conj |-> n > 0 /\ \A i \in I : conj(as[i]),
        positive |-> n > 0 /\ \A i \in I : positive(as[i]),
        main |-> n > 0 /\ \A i \in I : main(as[i]),
        maybeMain |-> \E i \in I : maybeMain(as[i]),
        negative |-> n > 0 /\ \A i \in I : neg(as[i]),
        req |-> F[n], inf |-> V[n][2]]
OtherInfo == [valid |-> FALSE, lcase |-> FALSE, genitive |-> FALSE, geo |-> FALSE, maybeConj |-> FALSE, conj |-> FALSE, positive |-> TRUE,
              main |-> TRUE, maybeMain |-> FALSE, negative |-> FALSE, req |-> "", inf |-> ""]

Separators == {DOT, COLON, 8230, 8211, 8212}       \* . : ... and dashes may separate sentences
TokensOf(t, base, T) ==
    LET ts == Tokenise(t, FALSE)
        n == Len(ts) - 1
        P[i \in Nat] == IF i = 1 THEN 1 ELSE P[i - 1] + ts[i - 1][2]
        Q == Eager([i \in 1..n |-> P[i]])
        str(i) == Sub(t, Q[i], Q[i] + ts[i][2] - 1)
        sep(i) == ts[i][1] = TOK_PUNCT /\ (ts[i][2] = 3 \/ t[Q[i]] \in Separators)
        \* a separator, and no word after it before this one
        S[i \in Nat] == IF i = 0 THEN FALSE ELSE ts[i][1] # TOK_WORD /\ (sep(i) \/ S[i - 1])
        tok(i) == [ty |-> ts[i][1], s |-> str(i), p |-> base + Q[i] - 1, start |-> ts[i][1] = TOK_WORD /\ S[i - 1],
                   w |-> IF ts[i][1] = TOK_WORD THEN WordInfo(str(i), T) ELSE OtherInfo]
    IN Eager([i \in 1..n |-> tok(i)])

\* sentences: a merely possible boundary does not separate
ParagraphOf(t, Known(_), T) ==
    LET ss == Sentences(t, Known)
        R[i \in Nat, a \in Nat, b \in Nat] ==         \* a..b: the sentence so far, before the part i
            IF ss[i][1] = SENT_POSSIBLE THEN R[i + 1, a, b + ss[i][2]]
            ELSE LET e == b + ss[i][2] IN
                 <<[pos |-> a, toks |-> TokensOf(Sub(t, a + 1, e), a, T)]>>
                 \o (IF i = Len(ss) THEN <<>> ELSE R[i + 1, e, e])
    IN R[1, 0, 0]

----------------------------------------------------------------------------
(* Rules for one sentence.  s is the sequence of its tokens.                 *)
Word(s, i) == s[i].ty = TOK_WORD
White(s, i) == s[i].ty = TOK_WHITE
Punct(s, i) == s[i].ty = TOK_PUNCT
C1(s, i) == s[i].s[1]
TLen(s, i) == Len(s[i].s)
EndOf(s, i) == s[i].p + TLen(s, i)
Collect(n, f(_)) == IF n <= 0 THEN <<>> ELSE LET g == Eager([i \in 1..n |-> f(i)]) IN FlattenSeq(g)

MayStart(c) == c \in {40, 41, 39, 45, 8220, 8211, 8212} \/ IsQuote(c)
LocalPunctuation(s) ==
    LET n == Len(s)
        comma(i) == i <= n /\ Punct(s, i) /\ C1(s, i) = COMMA
        L[i \in Nat] ==
            IF i > n THEN <<>>
            ELSE IF White(s, i) THEN
                (IF TLen(s, i) > 1 THEN <<Err(G_WHITE, s[i].p, TLen(s, i), <<<<32>>>>)>>
                 ELSE IF comma(i + 1) THEN <<Err(G_SPACE, s[i].p, 2, <<<<COMMA>>>>)>> ELSE <<>>) \o L[i + 1]
            ELSE IF Punct(s, i) THEN
                (IF C1(s, i) = 91 /\ i + 2 <= n /\ C1(s, i + 2) = 93 THEN L[i + 3]         \* [2]
                 ELSE IF i = 1 THEN
                     (IF MayStart(C1(s, i)) THEN <<>>
                      ELSE IF s[i].p = 0 THEN <<Err(G_START, 0, 1, <<>>)>>
                      ELSE <<Err(G_START, s[i].p - 1, 2, <<>>)>>) \o L[i + 1]
                 ELSE (IF C1(s, i) = COMMA /\ comma(i + 1) THEN <<Err(G_COMMA, s[i].p, 2, <<<<COMMA>>>>)>> ELSE <<>>) \o L[i + 1])
            ELSE L[i + 1]
    IN L[1]

Quotations(s) ==
    LET n == Len(s)
        L[i \in Nat] ==
            IF i + 2 > n THEN <<>>
            ELSE IF ~Punct(s, i) THEN L[i + 1]
            ELSE IF C1(s, i) = 8220 THEN <<Err(G_FOREIGN, s[i].p, 1, <<<<8221>>>>)>>
            ELSE (IF Punct(s, i + 1) /\ IsQuote(C1(s, i + 1)) /\ Punct(s, i + 2) /\ C1(s, i + 2) = COMMA
                  THEN LET q == C1(s, i + 1)  c == C1(s, i) IN
                       IF c = DOT THEN <<Err(G_QUOTE_END, s[i].p, 3, <<<<q, COMMA>>>>)>>
                       ELSE IF c \in {33, 63} THEN <<Err(G_QUOTE_END, s[i].p, 3, <<<<c, q>>>>)>> ELSE <<>>
                  ELSE <<>>) \o L[i + 1]
    IN L[1]

MayRepeat == {<<111, 108, 108, 117, 116>>, <<111, 108, 108, 101, 101, 116>>, <<115, 105, 108, 108, 228>>}     \* ollut olleet silla"
Repeated(s) ==
    LET n == Len(s)
        L[i \in Nat] ==
            IF i + 2 > n THEN <<>>
            ELSE IF ~Word(s, i) THEN L[i + 1]
            ELSE IF ~White(s, i + 1) THEN L[i + 2]
            ELSE IF ~Word(s, i + 2) THEN L[i + 3]
            ELSE IF LowerStr(s[i].s) # LowerStr(s[i + 2].s) \/ IsDigitCh(C1(s, i)) \/ s[i].s \in MayRepeat THEN L[i + 2]
            ELSE <<Err(G_REPEAT, s[i].p, TLen(s, i) + TLen(s, i + 1) + TLen(s, i + 2), <<s[i].s>>)>> \o L[i + 1]
    IN L[1]

SIINA == <<115, 105, 105, 110, 228>>  MISSA == <<109, 105, 115, 115, 228>>
KAVI == <<107, 228, 118, 105>>        MITEN == <<109, 105, 116, 101, 110>>
TAB == 9
Verbs(s, pos, o) ==
    LET n == Len(s)
        bullet == o.bulleted /\ pos = 0 /\ (IsLower(C1(s, 1)) \/ ~s[1].w.lcase)
        tabs == \E i \in 1..n : C1(s, i) = TAB
        firstTab == First(1, n, n + 1, LAMBDA i : C1(s, i) = TAB)
        boundary(i) == \/ s[i].w.maybeConj
                       \/ i + 2 <= n /\ StartsWith(s[i].s, SIINA) /\ StartsWith(s[i + 2].s, MISSA)
                       \/ i + 2 <= n /\ StartsWith(s[i].s, KAVI) /\ StartsWith(s[i + 2].s, MITEN)
        \* v: the main verb of the clause so far, or 0
        L[i \in Nat, v \in Nat] ==
            IF i > n \/ i = firstTab THEN <<>>
            ELSE IF Punct(s, i) THEN L[i + 1, 0]
            ELSE IF ~Word(s, i) THEN L[i + 1, v]
            ELSE IF boundary(i) THEN L[i + 1, 0]
            ELSE IF ~s[i].w.main THEN L[i + 1, v]
            ELSE IF v = 0 THEN L[i + 1, i]
            ELSE (IF i = v + 2 /\ s[i].s = s[v].s THEN <<>>
                  ELSE <<Err(G_VERBS, s[v].p, EndOf(s, i) - s[v].p, <<>>)>>) \o L[i + 1, 0]
        words == {i \in 1..n : Word(s, i)}
        found == \E i \in words : ~s[i].w.valid \/ s[i].w.maybeMain \/ s[i].w.negative
        last == LET F[i \in Nat] == IF i = 0 THEN 0 ELSE IF ~White(s, i) THEN i ELSE F[i - 1] IN F[n]
        missing == ~tabs /\ ~found /\ Cardinality(words) >= 2 /\ C1(s, last) \in {DOT, 63} /\ s[last].s # <<DOT, DOT, DOT>>
    IN IF Punct(s, 1) \/ bullet THEN <<>>
       ELSE L[1, 0] \o (IF missing THEN <<Err(G_NOVERB, pos, EndOf(s, last) - pos, <<>>)>> ELSE <<>>)

\* a word and the word after it
Pairs(s, f(_, _)) == Collect(Len(s) - 2, LAMBDA i : IF Word(s, i) /\ White(s, i + 1) /\ Word(s, i + 2) THEN f(i, i + 2) ELSE <<>>)
Negatives(s) == Pairs(s, LAMBDA i, j : IF s[i].w.negative /\ s[j].w.positive THEN <<Err(G_NEGATIVE, s[i].p, EndOf(s, j) - s[i].p, <<>>)>> ELSE <<>>)
Infinitives(s) == Pairs(s, LAMBDA i, j :
    IF s[i].w.req = "A" /\ s[j].w.inf = "MA" THEN <<Err(G_A, s[i].p, EndOf(s, j) - s[i].p, <<>>)>>
    ELSE IF s[i].w.req = "MA" /\ s[j].w.inf = "A" THEN <<Err(G_MA, s[i].p, EndOf(s, j) - s[i].p, <<>>)>> ELSE <<>>)
VAAN == <<118, 97, 97, 110>>
Conjunctions(s) ==
    LET n == IF White(s, Len(s)) THEN Len(s) - 1 ELSE Len(s) IN
    IF n >= 2 /\ s[n - 1].w.conj /\ s[n - 1].s # VAAN /\ s[n].s = <<DOT>> THEN <<Err(G_CONJ, s[n - 1].p, TLen(s, n - 1), <<>>)>> ELSE <<>>

(* Phrases with a known correction: at the start of a word, the shortest     *)
(* phrase that begins there, if it ends where a token does.  White space and *)
(* soft hyphens make no difference, nor does the capital of the first word.  *)
Autocorrect(s, pos, A) ==         \* A: phrases, sequence of [i, o]
    LET n == Len(s)
        norm(i) == IF White(s, i) THEN <<32>> ELSE Without(s[i].s, SOFT)
        N == Eager([i \in 1..n |-> norm(i)])
        text == FlattenSeq(N)
        E[i \in Nat] == IF i = 0 THEN 0 ELSE E[i - 1] + Len(N[i])          \* ends of tokens
        low == IF text = <<>> THEN text ELSE SetAt(text, 1, ToLower(text[1]))
        hits(t, i) == {k \in 1..Len(A) : OccursAt(t, A[k].i, E[i - 1] + 1)}
        best(t, i) == LET H == hits(t, i) IN CHOOSE k \in H : \A m \in H : Len(A[k].i) < Len(A[m].i) \/ (Len(A[k].i) = Len(A[m].i) /\ k <= m)
        err(t, i, up) ==
            LET k == best(t, i)
                stop == E[i - 1] + Len(A[k].i)
                J == {j \in i..n : E[j] = stop}
                j == CHOOSE j \in J : \A m \in J : j <= m
                out == IF up THEN SetAt(A[k].o, 1, ToUpper(A[k].o[1])) ELSE A[k].o
            IN IF hits(t, i) = {} \/ J = {} THEN <<>>
               ELSE <<Err(G_SPELLING, s[i].p, EndOf(s, j) - s[i].p, <<out>>)>>
    IN Collect(n, LAMBDA i : IF Word(s, i) THEN err(text, i, FALSE) ELSE <<>>)
       \o (IF Word(s, 1) /\ IsUpper(C1(s, 1)) /\ hits(text, 1) = {} THEN err(low, 1, TRUE) ELSE <<>>)

SentenceErrors(x, o, A) == LET s == x.toks IN
    LocalPunctuation(s) \o Quotations(s) \o Repeated(s) \o Verbs(s, x.pos, o) \o Negatives(s) \o Infinitives(s) \o Conjunctions(s)
    \o Autocorrect(s, x.pos, A)

----------------------------------------------------------------------------
(* Capital letters, over the sentences of a paragraph that are not all in    *)
(* upper case and have no foreign quotation mark before the first lower case *)
(* letter.                                                                   *)
Shouted(s) ==
    LET n == Len(s)
        foreign == First(1, n, n + 1, LAMBDA i : C1(s, i) = 8220)
        lower == First(1, n, n + 1, LAMBDA i : Word(s, i) /\ \E k \in 1..TLen(s, i) : IsLower(s[i].s[k]))
    IN lower > n \/ foreign <= lower
Roman == {105, 73, 118, 86, 120, 88}
ChapterNumber(w) == /\ \A i \in 1..Len(w) : IsDigitCh(w[i]) \/ (w[i] = DOT /\ i > 1 /\ w[i - 1] # DOT)
                    /\ w[Len(w)] # DOT
ListItem(w) == Len(w) = 1 \/ ChapterNumber(w) \/ \A i \in 1..Len(w) : w[i] \in Roman
Opening == {40, 91}  Closing == {41, 93}

\* quotations and parentheses open after the tokens, and the errors in them
Nest(c0, seps) ==
    FoldLeft(LAMBDA c, t :
        IF t.ty # TOK_PUNCT THEN c
        ELSE LET ch == t.s[1]  q == c.open  n == Len(q) IN
        IF IsQuote(ch) THEN [c EXCEPT !.quoted = TRUE, !.open = IF n > 0 /\ q[n] = ch THEN Upto(q, n - 1) ELSE Append(q, ch)]
        ELSE IF ch \in Opening THEN [c EXCEPT !.open = Append(q, ch)]
        ELSE IF ch \in Closing THEN
            (IF n = 0 THEN [c EXCEPT !.errs = Append(@, Err(G_PAREN, t.p, 1, <<>>))]
             ELSE IF q[n] \in Opening THEN [c EXCEPT !.open = Upto(q, n - 1)] ELSE c)
        ELSE IF ch \in {DOT, 33, 63} THEN [c EXCEPT !.ended = TRUE]
        ELSE c, [c0 EXCEPT !.quoted = FALSE], seps)
EndsSentence(seps) ==
    LET ps == SelectSeq(seps, LAMBDA t : t.ty = TOK_PUNCT /\ t.s[1] # COMMA) IN
    ps # <<>> /\ ps[Len(ps)].s[1] \in {DOT, 33, 63}
HasToken(seps, c) == \E i \in 1..Len(seps) : seps[i].s = <<c>>

Capitals(para, o) ==
    LET some == SelectSeq(para, LAMBDA x : ~Shouted(x.toks))
        all == FlattenSeq(Eager([i \in 1..Len(some) |-> some[i].toks]))
        n == Len(all)
        wordIdx == SelectSeq(Eager([i \in 1..n |-> i]), LAMBDA i : all[i].ty = TOK_WORD)
        m == Len(wordIdx)
        \* tokens after the k-th word
        after(k) == Sub(all, (IF k = 0 THEN 0 ELSE wordIdx[k]) + 1, IF k = m THEN n ELSE wordIdx[k + 1] - 1)
        \* the last word of a paragraph is looked at only if something follows it
        more(k) == k < m \/ (k = m /\ (wordIdx[m] < n \/ para[Len(para)] # some[Len(some)]))
        recase(w, c) == SetAt(w.s, 1, c)
        place(w, seps) == w.w.genitive /\ Len(seps) = 1 /\ seps[1].s[1] = 32
        init == LET c == Nest([open |-> <<>>, ended |-> FALSE, quoted |-> FALSE, errs |-> <<>>], after(0)) IN
                [c |-> c, st |-> IF c.open # <<>> THEN "quoted" ELSE IF o.bulleted \/ HasToken(after(0), HYPHEN) THEN "any" ELSE "upper"]
        step(x, k) ==
            LET w == all[wordIdx[k]]
                seps == after(k)
                st == x.st
                item == st # "quoted" /\ seps # <<>> /\ seps[1].s[1] = 41 /\ ListItem(w.s)
                up == st = "upper" /\ ~item /\ ~IsUpper(w.s[1]) /\ ~IsDigitCh(w.s[1]) /\ ~w.start
                down == /\ st = "lower" /\ w.w.valid /\ w.w.lcase /\ IsUpper(w.s[1]) /\ ~w.start
                        /\ Len(w.s) > 1 /\ w.s[2] \notin {HYPHEN, COLON} /\ CaseType(w.s) # "upper" /\ ~w.w.geo
                err == IF up THEN <<Err(G_UPPER, w.p, Len(w.s), <<recase(w, ToUpper(w.s[1]))>>)>>
                       ELSE IF down THEN <<Err(G_LOWER, w.p, Len(w.s), <<recase(w, ToLower(w.s[1]))>>)>> ELSE <<>>
                c1 == [x.c EXCEPT !.errs = @ \o err]
                c2 == Nest(c1, IF item THEN Tail(seps) ELSE seps)
                glued == wordIdx[k] > 1 /\ all[wordIdx[k] - 1].ty # TOK_WHITE
                digits == \A i \in 1..Len(w.s) : IsDigitCh(w.s[i])
            IN IF item THEN [c |-> c2, st |-> "any"]
               ELSE IF c2.open # <<>> THEN [c |-> c2, st |-> "quoted"]
               ELSE IF st = "quoted" THEN
                   (IF EndsSentence(seps) THEN [c |-> [c2 EXCEPT !.ended = FALSE], st |-> "upper"]
                    ELSE IF c2.quoted \/ c2.ended THEN [c |-> [c2 EXCEPT !.ended = FALSE], st |-> "any"]
                    ELSE [c |-> c2, st |-> "lower"])
               ELSE IF \/ HasToken(seps, TAB)
                       \/ st \in {"upper", "lower"} /\ place(w, seps)
                       \/ st \in {"upper", "any"} /\ o.titles /\ ChapterNumber(w.s)
                       \/ st = "upper" /\ digits /\ glued
                    THEN [c |-> c2, st |-> "any"]
               ELSE IF EndsSentence(seps) THEN [c |-> [c2 EXCEPT !.ended = TRUE], st |-> "upper"]
               ELSE [c |-> c2, st |-> "lower"]
        S[k \in Nat] == IF k = 0 THEN init ELSE step(S[k - 1], k)
    IN IF n = 0 THEN <<>> ELSE S[IF m > 0 /\ ~more(m) THEN m - 1 ELSE m].c.errs

EndPunctuation(para, o) ==
    LET s == para[Len(para)].toks  n == Len(s) IN
    IF (o.titles /\ Len(para) = 1) \/ o.unfinished \/ o.bulleted \/ Punct(s, n) THEN <<>>
    ELSE <<Err(G_END, s[n].p, TLen(s, n), <<>>)>>

----------------------------------------------------------------------------
\* ordered by position; the order of the rules decides between errors at the same position
ByPosition(es) ==
    LET n == Len(es)
        idx == SortSeq(Eager([i \in 1..n |-> i]), LAMBDA a, b : es[a].pos < es[b].pos \/ (es[a].pos = es[b].pos /\ a < b))
    IN Eager([i \in 1..n |-> es[idx[i]]])

GrammarErrors(t, o, Known(_), T, A) ==
    LET whole == ParagraphOf(t, Known, T)
        para == Upto(whole, Lesser(Len(whole), MAX_SENTENCES))
        tooLong == \E i \in 1..Len(para) : Len(para[i].toks) > MAX_TOKENS
        s1 == para[1].toks
        \* a single sentence without white space, like an address
        strange == Len(para) = 1 /\ ~(\E i \in 1..Len(s1) : White(s1, i)) /\ (Len(s1) > 2 \/ ~Word(s1, 1))
    IN IF t = <<>> \/ tooLong \/ strange THEN <<>>
       ELSE ByPosition(FlattenSeq(Eager([i \in 1..Len(para) |-> SentenceErrors(para[i], o, A)]))
                       \o Capitals(para, o) \o EndPunctuation(para, o))

\* the error asked for: the first that starts at or after a position and has at least k errors before it in the list
NthError(es, start, k) ==
    LET n == Len(es) IN First(1, n, 0, LAMBDA i : i > k /\ es[i].pos >= start)
=============================================================================
