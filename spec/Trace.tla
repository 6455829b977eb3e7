------------------------------- MODULE Trace --------------------------------
(* Recorded histories of the real library, checked against the               *)
(* specification: one event per API call, in order, with its answer.         *)
EXTENDS Bind

Events == ndJsonDeserialize(IOEnv.EVENTS)
VARIABLES vPos, vHandles
vars == <<vPos, vHandles>>

Ev == Events[vPos]
Is(op) == vPos <= Len(Events) /\ Ev.op = op /\ vPos' = vPos + 1
Same(exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", vPos, "specification:", exp, "code:", got>>) /\ FALSE
Holds(what, p) == IF p THEN TRUE ELSE PrintT(<<"MISMATCH", vPos, "specification:", what, "code:", Ev.r>>) /\ FALSE

H == vHandles[Ev.h]
O == H.o
T == Lex[H.d]
D == DictFile[H.d]
\* the speller of the dictionary
Verdict(w) == CASE D.sp = "tweaks" -> LexVerdict(w, O, T)
                [] D.sp = "plain" -> SpellByAnalysis(w, T)
                [] D.sp = "ok" -> OK
                [] D.sp = "error" -> FAILED
                [] D.sp = "vfst" -> FstVerdict(D.spl, w)
                [] D.sp = "hfst" -> HfstVerdict(w, O, HfstWords[H.d])
Known(w) == Verdict(w) # FAILED
Spelling(w) == IF SpellVerdict(w, O, Verdict) THEN 1 ELSE 0

Query(op, exp) == Is(op) /\ Same(exp, Ev.r) /\ UNCHANGED vHandles
\* answers that may be null
QueryN(op, null, exp) == Is(op) /\ Same(IF null THEN 1 ELSE 0, Ev.n) /\ (IF null THEN TRUE ELSE Same(exp, Ev.r)) /\ UNCHANGED vHandles

TNop == Is("nop") /\ UNCHANGED vHandles        \* changes of the environment; they are seen in the calls that depend on it
TReset == Is("reset") /\ vHandles' = [h \in 0..15 |-> Closed]
TOpen == Is("open") /\ Same(1, Ev.r.ok) /\ vHandles' = [vHandles EXCEPT ![Ev.h] = NewHandle(Ev.d)]
TTerm == Is("term") /\ vHandles' = [vHandles EXCEPT ![Ev.h] = Closed]
TSetB == Is("setb") /\ Same(IF Ev.k \in BoolOptions THEN 1 ELSE 0, Ev.r)
         /\ vHandles' = [vHandles EXCEPT ![Ev.h].o = SetBoolOption(@, Ev.k, Ev.v)]
TSetI == Is("seti") /\ Same(IF Ev.k \in IntOptions THEN 1 ELSE 0, Ev.r)
         /\ vHandles' = [vHandles EXCEPT ![Ev.h].o = SetIntOption(@, Ev.k, Ev.v)]

TTok == Query("tok", Tokenise(Ev.t, O.ignoreDot))
TSent == Query("sent", Sentences(Ev.t, Known))
TSpell == Query("spell", Spelling(Ev.t))
\* only what differs is printed
SameAnalyses(exp, got) ==
    IF exp = got THEN TRUE ELSE
    (LET n == IF Len(exp) = Len(got) THEN Len(exp) ELSE 0
         diff == {<<i, f>> \in (1..n) \X {"at", "st", "bf", "wb", "wi", "out"} : exp[i][f] # got[i][f]}
     IN PrintT(<<"MISMATCH", vPos, "specification:", Len(exp), {<<d, exp[d[1]][d[2]]>> : d \in diff},
                 "code:", Len(got), {<<d, got[d[1]][d[2]]>> : d \in diff}>>) /\ FALSE)
TAna == Is("ana") /\ Same(0, Ev.n) /\ SameAnalyses(AnalyseAnswer(Ev.t, T), Ev.r) /\ UNCHANGED vHandles
TAttr == LET k == Ev.k IN Is("attr") /\ (IF k \notin EnumKeys THEN Same(1, Ev.n)
             ELSE Same(0, Ev.n) /\ Same(AttributeValues[k], {Ev.r[i] : i \in 1..Len(Ev.r)})
                  /\ Same(Cardinality(AttributeValues[k]), Len(Ev.r))) /\ UNCHANGED vHandles
TSugg == LET s == SuggestAnswer(Ev.t, O, T) IN QueryN("sugg", s = <<>>, s)
THyph == QueryN("hyph", FALSE, HyphenAnswer(Ev.t, O, T))
Coded(e) == [e EXCEPT !.sugg = Eager([i \in 1..Len(e.sugg) |-> Encode(e.sugg[i])])]
FreshErrors(t) == LET es == IF D.kind = "hfst" THEN <<>> ELSE GrammarErrors(t, O, Known, T, D.auto) IN Eager([i \in 1..Len(es) |-> Coded(es[i])])
\* the same text is often asked about again: the last answers are remembered (by TLC, not by the specification)
MEMO == 7
ASSUME TLCSet(MEMO, <<>>)
Errors(t) == LET key == <<H.d, O, t>>
                 m == TLCGet(MEMO)
                 I == {i \in 1..Len(m) : m[i].key = key}
                 es == FreshErrors(t)
             IN IF I # {} THEN m[CHOOSE i \in I : TRUE].es
                ELSE IF TLCSet(MEMO, <<[key |-> key, es |-> es]>> \o Upto(m, Lesser(Len(m), 19))) THEN es ELSE es
\* all answers for skip counts 0, 1, 2, ... until there are no more
AllFrom(es, start) == LET n == Len(es)
                          I == SelectSeq(Eager([k \in 1..n |-> k - 1]), LAMBDA k : NthError(es, start, k) # 0)
                      IN Eager([i \in 1..Len(I) |-> es[NthError(es, start, I[i])]])
TGramAll == Query("gramall", AllFrom(Errors(Ev.t), Ev.s))
OneError(op, es) == LET k == NthError(es, Ev.s, Ev.k) IN QueryN(op, k = 0, es[k])
TGram == Is("gram") /\ OneError("gram", Errors(Ev.t))
TInsh == LET w == Decode(Ev.t)  y == Decode(Ev.y) IN
         QueryN("insh", TooLong(Ev.t) \/ w = INVALID \/ y = INVALID,
                Encode(InsertHyphens(w, HyphenAnswer(w, O, T), y, Ev.c # 0)))

(* UTF-8 interface: the answer for the decoded text; byte strings that are not UTF-8 are refused. *)
D8 == Decode(Ev.t)
Bad8 == D8 = INVALID
TSpellC == Query("spellC", IF Ev.t = <<>> THEN 1 ELSE IF TooLong(Ev.t) THEN 0 ELSE IF Bad8 THEN 3 ELSE Spelling(D8))
TSuggC == LET s == IF Ev.t = <<>> \/ TooLong(Ev.t) \/ Bad8 THEN <<>> ELSE SuggestAnswer(D8, O, T)
          IN QueryN("suggC", s = <<>>, Eager([i \in 1..Len(s) |-> Encode(s[i])]))
THyphC == QueryN("hyphC", TooLong(Ev.t) \/ Bad8, HyphenAnswer(D8, O, T))
TAnaC == LET none == Ev.t = <<>> \/ TooLong(Ev.t) \/ Bad8 IN
         Is("anaC") /\ Same(IF none THEN 1 ELSE 0, Ev.n) /\ (IF none THEN TRUE ELSE SameAnalyses(AnalyseAnswer(D8, T), Ev.r)) /\ UNCHANGED vHandles
TTokC == Query("tokC", Tokenise(D8, O.ignoreDot))
TSentC == Query("sentC", Sentences(D8, Known))
TGramAllC == Is("gramallC") /\ Query("gramallC", IF Bad8 THEN <<>> ELSE AllFrom(Errors(D8), Ev.s))
TGramC == Is("gramC") /\ OneError("gramC", IF Bad8 THEN <<>> ELSE Errors(D8))
TTok1 == Query("tok1", NextToken(Ev.t, O.ignoreDot))
\* a long text need not be looked at beyond what the token depends on
TTok1C == Is("tok1C") /\ UNCHANGED vHandles
          /\ (IF ~Bad8 THEN Same(NextToken(D8, O.ignoreDot), Ev.r)
              ELSE IF Ev.r[1] = TOK_NONE THEN TRUE
              ELSE LET p == ValidPrefix(Ev.t) IN Same(NextToken(p, O.ignoreDot), Ev.r) /\ Same(TRUE, Ev.r[2] < Len(p)))
TSent1 == Query("sent1", NextSentence(Ev.t, Known))
TSent1C == Is("sent1C") /\ UNCHANGED vHandles
           /\ (IF ~Bad8 THEN Same(NextSentence(D8, Known), Ev.r) ELSE Same(SENT_NONE, Ev.r[1]))

(* Dictionaries with transducers of their own: morphology, speller, error model. *)
\* the order of the items' fields does not matter; weights are those of the paths
TAnaW == Is("anaw") /\ Same(0, Ev.n) /\ Same(FstAnswer(Mor[H.d], Ev.t), Ev.r) /\ UNCHANGED vHandles
\* enumerations that may be cut short: everything returned is genuine
TAnaCut == Is("anacut") /\ Same(0, Ev.n) /\ UNCHANGED vHandles
           /\ Holds("only genuine outputs", \A i \in 1..Len(Ev.r) : Genuine(Mor[H.d], LowerStr(Ev.t), Ev.r[i].out))
\* compiled from a text: in any order
TAnaBag == Is("anabag") /\ Same(0, Ev.n) /\ Same(Bag(FstAnswer(Mor[H.d], Ev.t)), Bag(Ev.r)) /\ UNCHANGED vHandles
TAnaSet == Is("anaset") /\ Same(0, Ev.n) /\ Same(Bag(AnalyseAnswer(Ev.t, T)), Bag(Ev.r)) /\ UNCHANGED vHandles
\* the compiler: exit status, whether it said anything on standard error
TCompile == /\ Is("compile") /\ UNCHANGED vHandles
            /\ LET good == Ev.args = 1 /\ Compiles(Ev.lines, Ev.weighted = 1, Ev.more) IN
               Same([ok |-> good, complains |-> ~good], [ok |-> Ev.r.exit = 0, complains |-> Ev.r.err # 0])
TSuggW == /\ Is("suggw") /\ UNCHANGED vHandles
          /\ Same(IF Ev.r = <<>> THEN 1 ELSE 0, Ev.n)
          /\ IF SuggestionsFit(D.err, D.spl, Ev.t, O, Ev.r) THEN TRUE
             ELSE PrintT(<<"MISMATCH", vPos, "specification:", ErrCandidates(D.err, D.spl, SuggWord(Ev.t, O)), "code:", Ev.r>>) /\ FALSE

TSuggH == LET V == IF D.model = 1 THEN HfstWords[H.d] ELSE <<>> IN         \* there may be no error model
          /\ Is("suggh") /\ UNCHANGED vHandles
          /\ Same(IF Ev.r = <<>> THEN 1 ELSE 0, Ev.n)
          /\ IF HfstSuggestionsFit(V, D.edits, D.rules, Ev.t, O, Ev.r) THEN TRUE
             ELSE PrintT(<<"MISMATCH", vPos, "specification:", HfstCandidates(SuggWord(Ev.t, O), V, D.edits, D.rules), "code:", Ev.r>>) /\ FALSE

(* Finding dictionaries: the file system is described by a world of the run. *)
World == DictFile[Ev.w]
Ok(b) == IF b THEN 1 ELSE 0
\* a handle for the chosen dictionary, or an error message
TPick == LET c == Chosen(World, Ev.lang, Ev.path, Ev.envp, Ev.envd)
             found == Ev.nolang = 0 /\ c # NOTHING
             v == IF ~found THEN "bad" ELSE IF "files" \in DOMAIN c THEN DictVerdict(c) ELSE "ok"
             ok == v = "ok" \/ (v = "any" /\ Ev.r.ok = 1)
         IN Is("pick") /\ Same([ok |-> Ok(ok), complains |-> ~ok], [ok |-> Ev.r.ok, complains |-> Ev.r.err # ""])
            /\ vHandles' = [vHandles EXCEPT ![Ev.h] = IF ok THEN NewHandle(c.d) ELSE Closed]
\* files mapped and open when all handles are closed, beyond those at the start
TRes == Is("res") /\ UNCHANGED vHandles
        /\ IF \A h \in DOMAIN vHandles : ~vHandles[h].open THEN Same([maps |-> 0, fds |-> 0], Ev.r) ELSE TRUE
TWho == QueryN("who", ~H.open, Eager([i \in 1..Len(Ev.t) |-> Spelling(Ev.t[i])]))
TListD == LET l == Listing(World, Ev.path, Ev.envp) IN Query("listd", Eager([i \in 1..Len(l) |-> Shown(l[i])]))
TCaps == LET l == Listing(World, Ev.path, Ev.envp)
             all == Sorted(ShortTags(l))
             s == Sorted(ShortTags(SelectSeq(l, LAMBDA e : ~IsArchive(e))))       \* archives are for spelling only
         IN Query("caps", [spell |-> all, hyphen |-> s, grammar |-> s])

(* The deprecated interface: handles are numbered; number n is handle 10 + n here. *)
SLOTS == 1..4
FreeSlots == {n \in SLOTS : ~vHandles[10 + n].open}
Least(S) == CHOOSE n \in S : \A m \in S : n <= m
UNTOUCHED == 77         \* what the caller's variable held before the call
TDInit == LET c == Chosen(World, VariantTag(Ev.lang), Ev.path, Ev.envp, Ev.envd)
              n == IF FreeSlots = {} \/ Ev.nolang = 1 THEN UNTOUCHED ELSE IF c = NOTHING THEN 0 ELSE Least(FreeSlots)
          IN Is("dinit") /\ Same([h |-> n, complains |-> n \notin SLOTS], [h |-> Ev.r.h, complains |-> Ev.r.err # ""])
             /\ vHandles' = IF n \in SLOTS THEN [vHandles EXCEPT ![10 + n] = NewHandle(c.d)] ELSE vHandles
TDTerm == LET known == Ev.k \in SLOTS /\ vHandles[10 + Ev.k].open IN
          Is("dterm") /\ Same(Ok(known), Ev.r)
          /\ vHandles' = IF known THEN [vHandles EXCEPT ![10 + Ev.k] = Closed] ELSE vHandles
TDWho == QueryN("dwho", ~H.open, Spelling(Ev.t))
\* the only option of type string is the encoding, which is always UTF-8
TDSetS == Query("dsets", Ok(Ev.k = 2 /\ Ev.v = "UTF-8"))
\* integer options; the former option 5 is accepted and ignored
TDSetI == Is("dseti") /\ Same(Ok(Ev.k \in IntOptions \cup {5}), Ev.r)
          /\ vHandles' = [vHandles EXCEPT ![Ev.h].o = SetIntOption(@, Ev.k, Ev.v)]

(* The command line tools: one run with all its input and output. *)
TTool == /\ Is("tool") /\ UNCHANGED vHandles
         /\ LET good == Ev.d # "" /\ \A i \in 1..Len(Ev.args) : GoodArg(Ev.tool, Ev.args[i])
                bad == IF good THEN RunMismatch(Ev.tool, Ev.d, Ev.args, Ev.table, Ev.lines, Ev.items, Ev.out)
                       ELSE IF Ev.out = <<>> THEN <<>> ELSE <<"no output for wrong arguments">>
            IN Same(IF good THEN 0 ELSE 1, Ev.r) /\ Same(<<>>, bad)

(* The Python, Java and JavaScript modules.  n = 2: the exception of the module was raised. *)
B == Ev.b
\* an instance that was terminated, or that was never created, is not used
BQuery(op, null, exp) == Is(op) /\ UNCHANGED vHandles
    /\ (IF ~H.open THEN Same(2, Ev.n) ELSE Same(IF null THEN 1 ELSE 0, Ev.n) /\ (IF null THEN TRUE ELSE Same(exp, Ev.r)))
\* Java and JavaScript hand words to the library in UTF-8, where their length is counted in bytes
BTooLong == B \in {"java", "js"} /\ TooLong(Encode(Ev.t))
TBOpen == Is("binit") /\ Same([ok |-> Ok(Ev.d # ""), err |-> Ok(Ev.d = "")], Ev.r)
          /\ vHandles' = [vHandles EXCEPT ![Ev.h] = IF Ev.d # "" THEN NewHandle(Ev.d) ELSE Closed]
TBTerm == Is("bterm") /\ Same(0, Ev.n) /\ vHandles' = [vHandles EXCEPT ![Ev.h] = Closed]
TBSet == LET x == IF Ev.name = "" THEN <<Ev.kind, Ev.k>> ELSE Setters[Ev.name]
             known == IF x[1] = "b" THEN x[2] \in BoolOptions ELSE x[2] \in IntOptions
         IN Is("bset") /\ Same(IF H.open /\ known THEN 0 ELSE 2, Ev.n)
            /\ vHandles' = IF ~H.open THEN vHandles
                           ELSE IF x[1] = "b" THEN [vHandles EXCEPT ![Ev.h].o = SetBoolOption(@, x[2], Ev.v)]
                           ELSE [vHandles EXCEPT ![Ev.h].o = SetIntOption(@, x[2], Ev.v)]
TBSpell == BQuery("bspell", FALSE, IF HasNul(Ev.t) \/ (BTooLong /\ Ev.t # <<>>) THEN 0 ELSE Spelling(Ev.t))
TBSugg == BQuery("bsugg", FALSE, IF HasNul(Ev.t) \/ BTooLong \/ Ev.t = <<>> THEN <<>> ELSE SuggestAnswer(Ev.t, O, T))
TBHyph == BQuery("bhyph", FALSE, IF HasNul(Ev.t) \/ BTooLong THEN Spaces(Units(B, Ev.t)) ELSE Pattern(B, Ev.t, HyphenAnswer(Ev.t, O, T)))
TBInsh == BQuery("binsh", FALSE, IF HasNul(Ev.t) \/ HasNul(Ev.y) \/ TooLong(Encode(Ev.t)) THEN Ev.t
                                 ELSE InsertHyphens(Ev.t, HyphenAnswer(Ev.t, O, T), Ev.y, Ev.c # 0))
TBAna == Is("bana") /\ UNCHANGED vHandles
         /\ (IF ~H.open THEN Same(2, Ev.n)
             ELSE Same(0, Ev.n) /\ SameAnalyses(IF HasNul(Ev.t) \/ BTooLong \/ Ev.t = <<>> THEN <<>> ELSE AnalyseAnswer(Ev.t, T), Ev.r))
TBTok == BQuery("btok", FALSE, BindTokens(B, Ev.t, 0, O.ignoreDot))
TBSent == BQuery("bsent", FALSE, IF HasNul(Ev.t) THEN <<[type |-> SENT_NONE, text |-> Ev.t]>> ELSE CutSentences(Ev.t, Sentences(Ev.t, Known)))
\* a text in the given language is the library's text for the code of the error
BErrorsOf(p) == LET es == AllFrom(Errors(p[2]), 0) IN
    Eager([i \in 1..Len(es) |-> Placed(B, Ev.t, p[1], es[i]) @@ [sugg |-> Eager([j \in 1..Len(es[i].sugg) |-> Decode(es[i].sugg[j])]),
                                                                  descr |-> DictFile["messages"][Ev.lang][ToString(es[i].code)]]])
TBGram == LET ps == BindParagraphs(B, Ev.t, 0) IN
          BQuery("bgram", FALSE, IF HasNul(Ev.t) THEN <<>> ELSE FlattenSeq(Eager([i \in 1..Len(ps) |-> BErrorsOf(ps[i])])))
TBAttr == LET k == Ev.k  none == k \notin EnumKeys IN Is("battr") /\ UNCHANGED vHandles
          /\ (IF ~H.open THEN Same(2, Ev.n) ELSE Same(Ok(none), Ev.n)
               /\ (IF none THEN TRUE ELSE Same(AttributeValues[k], {Ev.r[i] : i \in 1..Len(Ev.r)}) /\ Same(Cardinality(AttributeValues[k]), Len(Ev.r))))
TBSort == Is("bsort") /\ UNCHANGED vHandles /\ Same(Bag(Ev.l), Bag(Ev.r)) /\ Holds("dictionaries in order", InOrder(Ev.r))
\* statistics of a text (tools/pylib/voikkostatistics.py): counts, and indices in thousandths
SyllableCount(w) == 1 + Cardinality({i \in 1..Len(w) : HyphenAnswer(w, O, T)[i] # 32})
BaseformSyllables(w) == LET as == SelectSeq(AnalyseAnswer(w, T), LAMBDA a : a.bf # <<0>>) IN IF as = <<>> THEN 0 ELSE SyllableCount(as[1].bf)
Near(exp, got) == exp - got \in -3..3
TBStat ==
    Is("bstat") /\ UNCHANGED vHandles
    /\ LET toks == BindTokens(B, Ev.t, 0, O.ignoreDot)
           ss == IF HasNul(Ev.t) THEN <<[type |-> SENT_NONE, text |-> Ev.t]>> ELSE CutSentences(Ev.t, Sentences(Ev.t, Known))
           ws == SelectSeq(toks, LAMBDA k : k.type = TOK_WORD)
           base == Eager([i \in 1..Len(ws) |-> BaseformSyllables(ws[i].text)])
           bins == SetToSortSeq({base[i] : i \in 1..Len(ws)}, <)
           hist == Eager([i \in 1..Len(bins) |-> <<bins[i], Cardinality({j \in 1..Len(ws) : base[j] = bins[i]})>>])
           sent == Len(SelectSeq(ss, LAMBDA x : x.type \in {SENT_NONE, SENT_PROBABLE}))
           syll == FoldSeq(LAMBDA k, n : n + SyllableCount(k.text), 0, ws)
           known == Cardinality({i \in 1..Len(ws) : base[i] > 0})
           long == Cardinality({i \in 1..Len(ws) : base[i] >= 4})
           W == Len(ws)
           none == known = 0 \/ sent = 0
       IN Same(0, Ev.n)
          /\ Same([sent |-> sent, words |-> W, known |-> known, syll |-> syll, letters |-> FoldSeq(LAMBDA k, n : n + Len(k.text), 0, ws),
                   punct |-> Len(SelectSeq(toks, LAMBDA k : k.type = TOK_PUNCT)), hist |-> hist],
                  [f \in {"sent", "words", "known", "syll", "letters", "punct", "hist"} |-> Ev.r[f]])
          /\ Holds("reading ease", Near(IF none THEN 0 ELSE 206823 - ((1015 * W) \div sent) - ((84600 * syll) \div W), Ev.r.ease))
          /\ Holds("grade level", Near(IF none THEN 0 ELSE (((390 * W) \div sent) + ((11800 * syll) \div W)) - 15590, Ev.r.grade))
          /\ Holds("share of long words", Near(IF none THEN 0 ELSE 2700 + ((30000 * long) \div known), Ev.r.wiio))

TraceInit == vPos = 1 /\ vHandles = [h \in 0..15 |-> Closed]
TraceNext == TReset \/ TNop \/ TOpen \/ TTerm \/ TSetB \/ TSetI \/ TTok \/ TSent \/ TSpell \/ TAna \/ TAttr \/ THyph \/ TInsh \/ TSugg \/ TSuggC \/ TGram \/ TGramAll \/ TGramC \/ TGramAllC
             \/ TAnaW \/ TAnaCut \/ TSuggW \/ TSuggH \/ TAnaBag \/ TAnaSet \/ TCompile
             \/ TPick \/ TRes \/ TWho \/ TListD \/ TCaps \/ TDInit \/ TDTerm \/ TDWho \/ TDSetS \/ TDSetI \/ TTool
             \/ TBOpen \/ TBTerm \/ TBSet \/ TBSpell \/ TBSugg \/ TBHyph \/ TBInsh \/ TBAna \/ TBTok \/ TBSent \/ TBGram \/ TBAttr \/ TBSort \/ TBStat
             \/ TSpellC \/ THyphC \/ TAnaC \/ TTokC \/ TSentC \/ TTok1 \/ TTok1C \/ TSent1 \/ TSent1C
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == LET n == TLCGet("stats").diameter - 1 IN
                 n = Len(Events) \/ (PrintT(<<"ACCEPTED-EVENTS", n>>) /\ FALSE)
=============================================================================
