-------------------------------- MODULE Tools --------------------------------
(* The command line tools: what they print for each line of their input.     *)
(* An item of output is a line (bytes), or the analyses of a word.           *)
EXTENDS Lexicons

BoolArgs ==
    [spell |-> "ignore_dot" :> 0 @@ "ignore_numbers" :> 1 @@ "ignore_nonwords" :> 10 @@ "accept_first_uppercase" :> 6
               @@ "accept_all_uppercase" :> 7 @@ "accept_extra_hyphens" :> 11 @@ "accept_missing_hyphens" :> 12 @@ "ocr_suggestions" :> 8,
     hyphenate |-> "ignore_dot" :> 0 @@ "no_ugly_hyphenation" :> 4 @@ "hyphenate_unknown_words" :> 15,
     gc |-> "accept_titles" :> 13 @@ "accept_unfinished_paragraphs" :> 14 @@ "accept_bulleted_lists" :> 16]
OtherArgs ==
    [spell |-> {"-t", "-tt", "-s", "-m", "-M", "-x", "-c", "-j"}, hyphenate |-> {"-s", "min_hyphenated_word_length"},
     gc |-> {"--tokenize", "--split-sentences", "explanation_language", "-n"}]

MAX_THREADS == 200
\* an argument: a name, and a number or a character (c, 0 if there is none) that belongs to it
GoodArg(tool, a) ==
    CASE a.a \in DOMAIN BoolArgs[tool] -> a.n \in {0, 1}
      [] a.a = "-j" /\ tool = "spell" -> a.n >= 1 /\ a.n <= MAX_THREADS
      [] a.a = "-s" /\ tool = "hyphenate" -> a.c # 0
      [] OTHER -> a.a \in OtherArgs[tool]

\* the settings of a run: later arguments override earlier ones; number of threads and size of the cache are no settings
NoSettings == [o |-> DefaultOptions, mode |-> "normal", suggest |-> FALSE, morph |-> FALSE, one |-> FALSE, sep |-> SP,
               hsep |-> HYPHEN, op |-> "gc", numbers |-> FALSE, explain |-> FALSE]
WithArg(tool, s, a) ==
    IF a.a \in DOMAIN BoolArgs[tool] THEN [s EXCEPT !.o = SetBoolOption(@, BoolArgs[tool][a.a], a.n)]
    ELSE CASE a.a = "-t" -> [s EXCEPT !.mode = "letter"]
           [] a.a = "-tt" -> [s EXCEPT !.mode = "wrong"]
           [] a.a = "-s" -> IF tool = "spell" THEN [s EXCEPT !.suggest = TRUE] ELSE [s EXCEPT !.hsep = a.c]
           [] a.a = "-m" -> [s EXCEPT !.morph = TRUE]
           [] a.a = "-M" -> [s EXCEPT !.morph = TRUE, !.mode = "none"]
           [] a.a = "-x" -> [s EXCEPT !.one = TRUE, !.sep = IF a.c = 0 THEN @ ELSE a.c]
           [] a.a = "min_hyphenated_word_length" -> [s EXCEPT !.o.min = Greater(a.n, 2)]
           [] a.a = "--tokenize" -> [s EXCEPT !.op = "tok"]
           [] a.a = "--split-sentences" -> [s EXCEPT !.op = "sent"]
           [] a.a = "-n" -> [s EXCEPT !.numbers = TRUE]
           [] a.a = "explanation_language" -> [s EXCEPT !.explain = TRUE]
           [] OTHER -> s
Settings(tool, args) == FoldLeft(LAMBDA s, a : WithArg(tool, s, a), NoSettings, args)

----------------------------------------------------------------------------
Line(w) == [k |-> "line", s |-> Encode(w), w |-> <<>>, l |-> <<>>]
Explained(w) == [k |-> "explained", s |-> Encode(w), w |-> <<>>, l |-> <<>>]
Analyses_(w, l) == [k |-> "ana", s |-> <<>>, w |-> w, l |-> l]

SpellLines(w, s, T) ==
    LET ok == s.mode = "none" \/ SpellAnswer(w, s.o, T) = 1
        sugg == IF ok THEN <<>> ELSE SuggestAnswer(w, s.o, T)
        shown == SelectSeq(sugg, LAMBDA x : s.sep # SP \/ IndexOf(x, SP) = 0)
        line == IF s.one THEN <<Line(w \o FlattenSeq(Eager([i \in 1..Len(shown) |-> <<s.sep>> \o shown[i]])))>>
                ELSE CASE s.mode = "normal" -> <<Line(Text(IF ok THEN "C: " ELSE "W: ") \o w)>>
                       [] s.mode = "letter" -> <<Line(Text(IF ok THEN "C" ELSE "W"))>>
                       [] s.mode = "wrong" -> IF ok THEN <<>> ELSE <<Line(w)>>
                       [] s.mode = "none" -> <<>>
        an == IF s.morph /\ ok THEN AnalyseAnswer(w, T) ELSE <<>>
        after == IF s.suggest /\ ~s.one THEN Eager([i \in 1..Len(sugg) |-> Line(Text("S: ") \o sugg[i])]) ELSE <<>>
    IN line \o (IF an = <<>> THEN <<>> ELSE <<Analyses_(w, an)>>) \o after

HyphenOut(w, s, T) ==
    LET p == HyphenAnswer(w, s.o, T)
        piece(i) == (IF p[i] # SP THEN <<s.hsep>> ELSE <<>>) \o (IF p[i] = 61 /\ s.hsep = HYPHEN THEN <<>> ELSE <<w[i]>>)
    IN <<Line(FlattenSeq(Eager([i \in 1..Len(w) |-> piece(i)])))>>

\* pieces of a text with their lengths
Ends(l) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x[2]), <<0>>, l)
TokenOut(t, s) ==
    LET l == SelectSeq(Tokenise(t, s.o.ignoreDot), LAMBDA x : x[1] # TOK_NONE)
        e == Ends(l)
        letter == <<"W", "P", "S", "U">>
    IN Eager([i \in 1..Len(l) |-> Line(Text(letter[l[i][1]]) \o Text(": \"") \o SubSeq(t, e[i] + 1, e[i + 1]) \o Text("\""))])
SentenceOut(t, s, T) ==
    LET l == Sentences(t, LAMBDA w : LexVerdict(w, s.o, T) # FAILED)
        e == Ends(l)
        letter(x) == IF x = SENT_NONE THEN "E: " ELSE IF x = SENT_PROBABLE THEN "B: " ELSE "P: "
    IN Eager([i \in 1..Len(l) |-> Line(Text(letter(l[i][1])) \o SubSeq(t, e[i] + 1, e[i + 1]))])

Num(n) == Text(ToString(n))
Quoted(l) == FlattenSeq(Eager([i \in 1..Len(l) |-> (IF i > 1 THEN Text(",") ELSE <<>>) \o Text("\"") \o l[i] \o Text("\"")]))
ErrorText(x) == Text("[code=") \o Num(x.code) \o Text(", level=0, descr=\"\", stpos=") \o Num(x.pos) \o Text(", len=") \o Num(x.len)
                \o Text(", suggs={") \o Quoted(x.sugg) \o Text("}]")
\* no: the number of the line in the input
GrammarOut(es, s, no) ==
    LET pre == IF s.numbers THEN Num(no) \o <<SP>> ELSE <<>>
        line(x) == IF s.explain THEN Explained(pre \o ErrorText(x)) ELSE Line(pre \o ErrorText(x))
    IN Eager([i \in 1..Len(es) |-> line(es[i])]) \o <<Line(pre \o Text("-"))>>

----------------------------------------------------------------------------
MAX_PARAGRAPH == 100000
\* lines that are answered at all
Processed(tool, b, w) == b # <<>> /\ w # INVALID /\ Len(w) <= (IF tool = "gc" THEN MAX_PARAGRAPH ELSE MAX_WORD)

\* what does not depend on the number of the line
LineOut(tool, b, s, T, auto) ==
    LET w == Decode(b) IN
    IF ~Processed(tool, b, w) THEN <<>>
    ELSE CASE tool = "spell" -> SpellLines(w, s, T)
           [] tool = "hyphenate" -> HyphenOut(w, s, T)
           [] s.op = "tok" -> TokenOut(w, s)
           [] s.op = "sent" -> SentenceOut(w, s, T)
           [] OTHER -> <<>>
IsGrammar(tool, s) == tool = "gc" /\ s.op = "gc"

\* an explanation is some text
FitsItem(exp, got) ==
    IF exp.k # "explained" THEN exp = got
    ELSE LET p == exp.s \o Text(" (") n == Len(got.s) IN
         got.k = "line" /\ n > Len(p) + 1 /\ StartsWith(got.s, p) /\ got.s[n] = 41

(* A whole run: lines are numbers of the table of different lines, output    *)
(* items numbers of the table of different items.  Answers 0 if the output   *)
(* is right, and otherwise a description.                                    *)
RunMismatch(tool, d, args, table, lines, items, out) ==
    LET s == Settings(tool, args)
        T == Lex[d]
        auto == DictFile[d].auto
        gram == IsGrammar(tool, s)
        plain == Once([i \in 1..Len(table) |-> LineOut(tool, table[i], s, T, auto)])
        errs == Once([i \in 1..Len(table) |-> IF gram /\ Processed(tool, table[i], Decode(table[i]))
                                              THEN GrammarAnswer(Decode(table[i]), s.o, T, auto) ELSE <<>>])
        expected(no) == LET i == lines[no] IN
                        IF ~gram THEN plain[i]
                        ELSE IF ~Processed(tool, table[i], Decode(table[i])) THEN <<>> ELSE GrammarOut(errs[i], s, no)
        \* at: items matched so far
        step(acc, no) ==
            IF acc.bad # 0 THEN acc
            ELSE LET e == expected(no) IN
                 IF acc.at + Len(e) <= Len(out) /\ \A k \in 1..Len(e) : FitsItem(e[k], items[out[acc.at + k]])
                 THEN [acc EXCEPT !.at = @ + Len(e)] ELSE [acc EXCEPT !.bad = no]
        r == FoldLeft(step, [at |-> 0, bad |-> 0], Eager([i \in 1..Len(lines) |-> i]))
    IN IF r.bad # 0 THEN <<"line", r.bad, "expected", expected(r.bad), "got",
                           Eager([k \in 1..Lesser(Len(expected(r.bad)) + 1, Len(out) - r.at) |-> items[out[r.at + k]]])>>
       ELSE IF r.at < Len(out) THEN <<"surplus output", items[out[r.at + 1]]>> ELSE <<>>
=============================================================================
