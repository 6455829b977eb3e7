------------------------------ MODULE VfstFile ------------------------------
(* Which files are transducers, and which dictionaries can be loaded.        *)
(* A file is [s |-> "data", b |-> bytes]; other values of s mean that there  *)
(* is nothing to read (no file, a directory).  The verdict is "ok", "bad"    *)
(* (using it would lead outside the file, or it is no transducer at all) or  *)
(* "any": odd, but an implementation may make something of it.               *)
EXTENDS Select, Utf8

Worst(a, b) == IF "bad" \in {a, b} THEN "bad" ELSE IF "any" \in {a, b} THEN "any" ELSE "ok"

COOKIE == <<110, 58, 1, 0, 250, 81, 3, 0>>
REVCOOKIE == <<0, 1, 58, 110, 0, 3, 81, 250>>
HUGE == 1000000000
\* the number in the bytes, first the least significant one
LittleEndian(bs) == IF Len(bs) = 4 /\ bs[4] >= 32 THEN HUGE
                    ELSE FoldRight(LAMBDA x, acc : acc * 256 + x, bs, 0)
Number(b, at, n, be) == LET bs == Eager([i \in 1..n |-> b[at + i]]) IN LittleEndian(IF be THEN Reverse(bs) ELSE bs)

\* n symbols that begin after the first i bytes: what they are and where they end, or nothing
RECURSIVE FileSymbols(_, _, _, _)
FileSymbols(b, i, n, acc) == IF n = 0 THEN <<[at |-> i, syms |-> acc]>> ELSE
    LET z == First(i + 1, Len(b), 0, LAMBDA k : b[k] = 0) IN
    IF z = 0 THEN <<>> ELSE FileSymbols(b, z, n - 1, Append(acc, Sub(b, i + 1, z - 1)))

Operations == {67, 68, 80, 82, 85}
FlagVerdict(s) == IF Len(s) <= 4 THEN "bad"
                  ELSE IF s[2] \notin Operations \/ s[3] # DOT \/ s[Len(s)] # AT THEN "any" ELSE "ok"
SymbolsVerdict(syms) ==
    LET n == Len(syms)
        firstNormal == First(2, n, n + 1, LAMBDA i : syms[i] = <<>> \/ syms[i][1] # AT)
        one(i) == IF Decode(syms[i]) = INVALID THEN "bad"
                  ELSE IF i = 1 THEN (IF syms[i] = <<>> THEN "ok" ELSE "bad")
                  ELSE IF i < firstNormal THEN FlagVerdict(syms[i])
                  ELSE IF syms[i] = <<>> \/ (\E c \in {65534, 65535} : \E k \in 1..Len(Decode(syms[i])) : Decode(syms[i])[k] = c) THEN "any" ELSE "ok"
    IN IF n = 0 THEN "bad" ELSE IF firstNormal > n /\ n > 1 THEN Worst("any", FoldLeft(LAMBDA acc, i : Worst(acc, one(i)), "ok", Eager([i \in 1..n |-> i])))
       ELSE FoldLeft(LAMBDA acc, i : Worst(acc, one(i)), "ok", Eager([i \in 1..n |-> i]))

(* The table of transitions: cells numbered from 0.  The cells of a state follow each other; the first tells how *)
(* many more there are, 255 meaning that the number is in the next cell, which is not a transition.               *)
CellSize(weighted) == IF weighted THEN 16 ELSE 8
CellAt(b, at, weighted, be) ==
    IF weighted
    THEN [final |-> \A i \in 1..4 : b[at + i] = 255, in |-> Number(b, at, 4, be), out |-> Number(b, at + 4, 4, be),
          to |-> Number(b, at + 8, 4, be), more |-> b[at + 15], over |-> Number(b, at, 4, be)]
    ELSE [final |-> b[at + 1] = 255 /\ b[at + 2] = 255, in |-> Number(b, at, 2, be), out |-> Number(b, at + 2, 2, be),
          to |-> Number(b, at + 4, 3, be), more |-> b[at + 8], over |-> Number(b, at, 4, be)]
\* the cells of the state that begins at s; nothing if it is not within the table; <<-1>> if the count is not the usual one
StateCells(C, n, s) ==
    IF s >= n THEN <<>>
    ELSE IF C[s].more < 255 THEN (IF s + C[s].more >= n THEN <<>> ELSE Eager([i \in 1..(C[s].more + 1) |-> s + i - 1]))
    ELSE IF s + 1 >= n THEN <<>>
    ELSE IF C[s + 1].over < 255 THEN <<-1>>
    ELSE IF C[s + 1].over >= n \/ s + C[s + 1].over + 1 >= n THEN <<>>
    ELSE <<s>> \o Eager([i \in 1..C[s + 1].over |-> s + 1 + i])

\* what can be reached from the start
RECURSIVE ReachVerdict(_, _, _, _, _)
ReachVerdict(C, n, nsyms, seen, new) ==
    IF new = {} THEN "ok" ELSE
    LET rows == [s \in new |-> StateCells(C, n, s)]
        cells == UNION {{rows[s][i] : i \in 1..Len(rows[s])} : s \in new}
        odd == -1 \in cells
        used == {c \in cells \ {-1} : ~C[c].final /\ C[c].in < nsyms}
        targets == {C[c].to : c \in used}
    IN IF \E s \in new : rows[s] = <<>> THEN "bad"
       ELSE IF \E c \in used : C[c].to >= n \/ C[c].out >= nsyms THEN "bad"
       ELSE LET v == ReachVerdict(C, n, nsyms, seen \cup targets, targets \ seen) IN IF odd THEN Worst(v, "any") ELSE v
\* the states one after the other
RECURSIVE Heads(_, _, _, _)
Heads(C, n, s, acc) == IF s = n THEN acc ELSE
    LET row == StateCells(C, n, s) IN
    IF row = <<>> \/ row = <<-1>> THEN {-1} ELSE Heads(C, n, row[Len(row)] + 1, acc \cup {s})
Tidy(C, n, nsyms) ==
    LET hs == Heads(C, n, 0, {})
        overs == {h + 1 : h \in {h \in hs : h >= 0 /\ C[h].more = 255}}
    IN -1 \notin hs /\ \A c \in (0..(n - 1)) \ overs :
           /\ C[c].final \/ (C[c].to \in hs /\ C[c].out < nsyms)
           /\ c \in hs \/ C[c].more = 0

FileVerdict(f, weighted) ==
    LET b == f.b
        be == SubSeq(b, 1, 8) = REVCOOKIE
        nsyms == Number(b, 16, 2, be)
        st == FileSymbols(b, 18, nsyms, <<>>)
        size == CellSize(weighted)
        start == ((st[1].at + size - 1) \div size) * size
        n == (Len(b) - start) \div size
        C == Once([c \in 0..(n - 1) |-> CellAt(b, start + c * size, weighted, be)])
        table == IF n <= 0 THEN "bad"
                 ELSE Worst(ReachVerdict(C, n, nsyms, {0}, {0}),
                            IF Tidy(C, n, nsyms) /\ (Len(b) - start) % size = 0 THEN "ok" ELSE "any")
    IN IF f.s # "data" THEN "bad"
       ELSE IF Len(b) < 18 THEN "bad"
       ELSE IF SubSeq(b, 1, 8) \notin {COOKIE, REVCOOKIE} THEN "bad"
       ELSE IF weighted # (b[9] = 1) THEN "bad"
       ELSE IF st = <<>> THEN "bad"
       ELSE Worst(Worst(SymbolsVerdict(st[1].syms), table), IF b[9] \in {0, 1} THEN "ok" ELSE "any")

----------------------------------------------------------------------------
(* The parts a dictionary is made of are named in its index file *)
MOR_DEFAULT == Text("finnishVfst")
SPELL_PLAIN == Text("AnalyzerToSpellerAdapter(currentAnalyzer)")
SPELL_DEFAULT == Text("FinnishSpellerTweaksWrapper(AnalyzerToSpellerAdapter(currentAnalyzer),currentAnalyzer)")
SUGG_DEFAULT == Text("FinnishSuggestionStrategy(currentAnalyzer)")
HYPH_DEFAULT == Text("AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)")
NULL == Text("null")
VFST == Text("vfst")
DictVerdict(e) ==
    LET mor == Field(e.lines, Text("Morphology-Backend: "), MOR_DEFAULT)
        spell == Field(e.lines, Text("Speller-Backend: "), SPELL_DEFAULT)
        sugg == Field(e.lines, Text("Suggestion-Backend: "), SUGG_DEFAULT)
        hyph == Field(e.lines, Text("Hyphenator-Backend: "), HYPH_DEFAULT)
        gram == Field(e.lines, Text("Grammar-Backend: "), MOR_DEFAULT)
        F == e.files
        vs == <<IF mor = NULL THEN "ok" ELSE IF mor = MOR_DEFAULT THEN FileVerdict(F.mor, FALSE) ELSE IF mor = VFST THEN FileVerdict(F.mor, TRUE) ELSE "bad",
                IF spell \in {SPELL_PLAIN, SPELL_DEFAULT, Text("AllOk"), Text("AllError")} THEN "ok" ELSE IF spell = VFST THEN FileVerdict(F.spl, TRUE) ELSE "bad",
                IF sugg \in {SUGG_DEFAULT, NULL} THEN "ok" ELSE IF sugg = VFST /\ spell = VFST THEN FileVerdict(F.err, TRUE) ELSE "bad",
                IF hyph = HYPH_DEFAULT THEN "ok" ELSE IF hyph = Text("hfst") THEN "any" ELSE "bad",
                IF gram \in {NULL, Text("finnish")} THEN "ok" ELSE IF gram = MOR_DEFAULT THEN FileVerdict(F.autocorr, FALSE) ELSE "bad">>
    IN FoldLeft(Worst, "ok", vs)
=============================================================================
