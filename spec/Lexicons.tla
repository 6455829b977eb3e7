------------------------------ MODULE Lexicons ------------------------------
(* The dictionaries of a run, given as JSON.                                 *)
EXTENDS Handle, Att, VfstFile, Hfst, Json, IOUtils

DictFile == JsonDeserialize(IOEnv.DICTS)

\* analyses of every word of every lexicon
LexOf(d) == LET ws == DictFile[d].words
                n == Len(ws)
                S == {ws[i].w : i \in 1..n}
                nth == [x \in S |-> CHOOSE i \in 1..n : ws[i].w = x]
            IN Once([x \in S |-> AnalysesOf(ws[nth[x]].o, Len(x))])
\* a Finnish lexicon given as a transducer: the analyses of the words that will be asked about
\* transducers given as text
FstOf(d, which) == LET x == DictFile[d][which] IN
                   IF "lines" \in DOMAIN x THEN Meaning(x.lines, x.weighted = 1) ELSE x
FstLexOf(d) == LET F == FstOf(d, "mor")
                   S == {DictFile[d].ask[i] : i \in 1..Len(DictFile[d].ask)}
                   outs(p) == Eager([i \in 1..Len(p) |-> p[i].out])
               IN Once([x \in S |-> AnalysesOf(outs(Paths(F, x)), Len(x))])
Lex == Once([d \in DOMAIN DictFile |-> CASE DictFile[d].kind = "fin" -> LexOf(d)
                                          [] DictFile[d].kind = "ffst" -> FstLexOf(d)
                                          [] OTHER -> <<>>])
\* the words of spellers in ZHFST archives, with their weights
HfstWords == Once([d \in DOMAIN DictFile |->
                     IF DictFile[d].kind # "hfst" THEN <<>>
                     ELSE LET ws == DictFile[d].words
                              S == {ws[i].w : i \in 1..Len(ws)}
                              nth == [x \in S |-> CHOOSE i \in 1..Len(ws) : ws[i].w = x]
                          IN Once([x \in S |-> ws[nth[x]].wt])])
\* generic morphologies
Mor == Once([d \in DOMAIN DictFile |-> IF DictFile[d].kind \in {"vfst", "ffst"} THEN FstOf(d, "mor") ELSE <<>>])
=============================================================================
