-------------------------------- MODULE Bind --------------------------------
(* The Python, Java and JavaScript modules: what their methods return, given *)
(* the answers of the library.  Python counts characters, the others count   *)
(* UTF-16 units; all take texts of several paragraphs and texts with NUL.    *)
EXTENDS Tools

\* length of a text in the units of the binding
Units(b, t) == IF b \in {"java", "js"} THEN Len(t) + Cardinality({i \in 1..Len(t) : t[i] > 65535}) ELSE Len(t)
HasNul(t) == \E i \in 1..Len(t) : t[i] = 0
Spaces(n) == Eager([i \in 1..n |-> 32])

\* one character of the pattern for each unit of the word
Pattern(b, w, pat) == IF b = "py" THEN pat
    ELSE FlattenSeq(Eager([i \in 1..Len(pat) |-> IF w[i] > 65535 THEN <<pat[i], 32>> ELSE <<pat[i]>>]))

\* NUL is a token of its own; so are, for Java, the surrogates
Special(b, c) == c = 0 \/ (b = "java" /\ c > 65535)
Surrogates(c) == <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
UnknownTokens(c, pos) == LET x(ch, p) == [type |-> TOK_UNKNOWN, text |-> <<ch>>, pos |-> p] IN
    IF c = 0 THEN <<x(0, pos)>> ELSE <<x(Surrogates(c)[1], pos), x(Surrogates(c)[2], pos + 1)>>
\* toks: pairs of type and length; the end of the text is not a token
RECURSIVE WithTexts(_, _, _, _)
WithTexts(b, t, toks, pos) ==
    IF toks = <<>> \/ toks[1][1] = TOK_NONE THEN <<>>
    ELSE LET n == toks[1][2] IN
         <<[type |-> toks[1][1], text |-> Upto(t, n), pos |-> pos]>> \o WithTexts(b, From(t, n + 1), Tail(toks), pos + Units(b, Upto(t, n)))
RECURSIVE BindTokens(_, _, _, _)
BindTokens(b, t, pos, ignoreDot) ==
    IF t = <<>> THEN <<>>
    ELSE LET I == {i \in 1..Len(t) : Special(b, t[i])}
             n == IF I = {} THEN Len(t) ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
             head == Upto(t, n)
             p == pos + Units(b, head)
         IN (IF n = 0 THEN <<>> ELSE WithTexts(b, head, Tokenise(head, ignoreDot), pos))
            \o (IF I = {} THEN <<>>
                ELSE UnknownTokens(t[n + 1], p) \o BindTokens(b, From(t, n + 2), p + Units(b, <<t[n + 1]>>), ignoreDot))

RECURSIVE CutSentences(_, _)
CutSentences(t, ss) == IF t = <<>> \/ ss = <<>> THEN <<>>
    ELSE <<[type |-> ss[1][1], text |-> Upto(t, ss[1][2])]>> \o CutSentences(From(t, ss[1][2] + 1), Tail(ss))

\* paragraphs as pairs of the number of characters before it and its text
ParagraphEnd(b, c) == c = 10 \/ (b \in {"java", "js"} /\ c = 13)
RECURSIVE BindParagraphs(_, _, _)
BindParagraphs(b, t, before) ==
    LET I == {i \in 1..Len(t) : ParagraphEnd(b, t[i])} IN
    IF I = {} THEN <<<<before, t>>>>
    ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j
         IN <<<<before, Upto(t, i - 1)>>>> \o BindParagraphs(b, From(t, i + 1), before + i)
\* an error at e.pos of a paragraph that follows n characters of t
Placed(b, t, n, e) == [pos |-> Units(b, Upto(t, n + e.pos)), len |-> Units(b, Sub(t, n + e.pos + 1, n + e.pos + e.len)), code |-> e.code]

\* setters by name: kind and number of the option
Setters == [setIgnoreDot |-> <<"b", 0>>, setIgnoreNumbers |-> <<"b", 1>>, setIgnoreUppercase |-> <<"b", 3>>, setNoUglyHyphenation |-> <<"b", 4>>,
    setAcceptFirstUppercase |-> <<"b", 6>>, setAcceptAllUppercase |-> <<"b", 7>>, setSuggestionStrategy |-> <<"b", 8>>, setIgnoreNonwords |-> <<"b", 10>>,
    setAcceptExtraHyphens |-> <<"b", 11>>, setAcceptMissingHyphens |-> <<"b", 12>>, setAcceptTitlesInGc |-> <<"b", 13>>,
    setAcceptUnfinishedParagraphsInGc |-> <<"b", 14>>, setHyphenateUnknownWords |-> <<"b", 15>>, setAcceptBulletedListsInGc |-> <<"b", 16>>,
    setMinHyphenatedWordLength |-> <<"i", 9>>, setSpellerCacheSize |-> <<"i", 17>>]

\* dictionaries as tuples of language, script, variant and description
RECURSIVE TupleLess(_, _)
TupleLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN Less(a[1], b[1]) ELSE TupleLess(Tail(a), Tail(b))
InOrder(s) == \A i \in 1..(Len(s) - 1) : ~TupleLess(s[i + 1], s[i])
=============================================================================
