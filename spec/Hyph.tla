-------------------------------- MODULE Hyph --------------------------------
(* Hyphenation of Finnish words.  A pattern has one symbol per character:    *)
(* ' ' (no break), '-' (break before the character), '=' (break that         *)
(* replaces the character).  During the construction 'X' marks characters    *)
(* where breaks are forbidden.                                               *)
EXTENDS Morph

SP == 32  XX == 88

SplitVowels == { <<97,101>>, <<97,111>>, <<101,97>>, <<101,111>>, <<105,97>>, <<105,111>>, <<111,97>>, <<111,101>>,
                 <<117,97>>, <<117,101>>, <<121,101>>, <<101,228>>, <<101,246>>, <<105,228>>, <<105,246>>, <<121,228>>,
                 <<228,101>>, <<246,101>> }
LongConsonants == << <<115,104,116,115,104>>, <<353,116,353>>, <<116,115,104>>, <<116,353>>, <<122,104>> >>
SplitAfter == { <<105,101>>, <<97,105>> }

IsV(c) == c \in Vowels
IsC(c) == c \in Consonants
IsBreak(c) == c \in {HYPHEN, EQ}
MIN_LENGTH_DEFAULT == 2

(* URLs and email addresses *)
IsNonword(w) ==
    LET n == Len(w)
        find(c) == First(1, n - 3, 0, LAMBDA i : w[i] = c)
        dotIn(a, b) == \E i \in a..b : w[i] = DOT
        sl == find(SLASH)
        at == find(AT)
    IN /\ n >= 4
       /\ \/ sl # 0 /\ w[sl + 1] = SLASH /\ dotIn(sl + 1, n - 1)
          \/ at # 0 /\ w[at + 1] # DOT /\ dotIn(at + 1, n - 1)
          \/ n >= 7 /\ StartsWith(w, <<119,119,119,46>>) /\ w[5] # DOT /\ dotIn(6, n)

AllowRules(w, ugly) ==
    /\ Len(w) > 1
    /\ ugly \/ (~IsNonword(w) /\ ~IsDigitCh(w[Len(w)]))

(* Would a break before position p (in part w with pattern hp) leave vowels  *)
(* on both sides?                                                            *)
GoodBreak(w, hp, p) ==
    LET n == Len(w)
        \* the part between the previous break (or the second character) and p
        back == {i \in 2..(p - 1) : ~\E j \in i..(p - 1) : IsBreak(hp[j])}
        stop == First(p, n, n + 1, LAMBDA i : IsBreak(hp[i]) \/ w[i] = DOT)
    IN /\ p > 1 /\ p < n
       /\ \E i \in back : IsV(w[i])
       /\ \E i \in p..(stop - 1) : IsV(w[i])

(* Breaks by the rules of syllabication inside one part of a word.           *)
RuleHyphenation(word, hp0, ugly) ==
    LET w == LowerStr(word)
        n == Len(w)
        lead == First(1, n, n + 1, LAMBDA i : ~IsC(w[i]))      \* first non-consonant
        cv(i) == /\ i >= lead /\ i < n /\ IsC(w[i]) /\ IsV(w[i + 1])
                 /\ w[i - 1] \notin {47, 46, 58, 38, 37, 39}
                 /\ (i <= 2 \/ ugly \/ w[i - 2] # APOS)
        h1 == Eager([i \in 1..n |-> IF cv(i) THEN HYPHEN ELSE hp0[i]])
        h2 == Eager([i \in 1..n |-> IF i > 1 /\ i < n /\ w[i] = APOS /\ IsV(w[i + 1]) THEN EQ ELSE h1[i]])
        \* around long vowels
        longv(h, i) ==
            IF IsV(w[i]) /\ w[i] = w[i + 1]
            THEN LET a == IF IsV(w[i - 1]) /\ GoodBreak(w, h, i) THEN SetAt(h, i, HYPHEN) ELSE h
                 IN IF i + 2 <= n /\ GoodBreak(w, a, i + 2) THEN SetAt(a, i + 2, HYPHEN) ELSE a
            ELSE h
        h3 == FoldLeft(longv, h2, [i \in 1..Greater(0, n - 2) |-> i + 1])
        h4 == Eager([i \in 1..n |-> IF i > 1 /\ h3[i] = SP /\ <<w[i - 1], w[i]>> \in SplitVowels THEN HYPHEN ELSE h3[i]])
        \* long consonants are kept together
        longc(h, i) ==
            FoldLeft(LAMBDA g, lc :
                IF i + Len(lc) <= n /\ OccursAt(w, lc, i)
                THEN IF \E k \in (i + 1)..(i + Len(lc)) : g[k] = HYPHEN
                     THEN Eager([k \in 1..n |-> IF k = i THEN HYPHEN
                                          ELSE IF k > i /\ k <= i + Len(lc) /\ g[k] = HYPHEN THEN SP ELSE g[k]])
                     ELSE g
                ELSE g, h, LongConsonants)
        h5 == FoldLeft(longc, h4, [i \in 1..Greater(0, n - 2) |-> i + 1])
        nice == Eager([i \in 1..n |-> IF i = 2 \/ i = n \/ (i > 1 /\ IsV(w[i - 1]) /\ IsV(w[i])) THEN SP ELSE h5[i]])
        vvv(h, i) == IF /\ h[i + 1] # HYPHEN /\ <<w[i], w[i + 1]>> \in SplitAfter /\ IsV(w[i + 2])
                        /\ GoodBreak(w, h, i + 2)
                     THEN SetAt(h, i + 2, HYPHEN) ELSE h
    IN IF ~AllowRules(word, ugly) \/ hp0[1] = XX THEN hp0
       ELSE IF ~ugly THEN nice
       ELSE FoldLeft(vvv, h5, [i \in 1..Greater(0, n - 3) |-> i])

(* Breaks known from the structure of one analysis.                          *)
BordersOf(st, len) ==
    LET s0 == IF st # <<>> /\ st[1] = EQ THEN 2 ELSE 1
        B[i \in Nat, p \in Nat] ==        \* i: character, p: position in the structure
            IF i > len THEN <<>>
            ELSE IF p > Len(st) THEN Times(SP, len - i + 1)
            ELSE IF st[p] = HYPHEN /\ p < Len(st) /\ st[p + 1] = EQ
                 THEN <<IF i # 1 THEN EQ ELSE SP>> \o B[i + 1, p + 2]
            ELSE IF st[p] = EQ THEN <<HYPHEN>> \o B[i + 1, p + 2]
            ELSE <<IF st[p] \in {ChJ, ChQ} THEN XX ELSE SP>> \o B[i + 1, p + 1]
    IN B[1, s0]

HasBorder(h) == \E i \in 1..Len(h) : IsBreak(h[i])

(* hs: the structures of the analyses of the word; w: the word; the patterns *)
(* to be combined.                                                           *)
\* o: [ugly, unknown, min, ignoreDot]; T: the analyses of each (lower case) word of the lexicon
Ana(T, w) == LET x == LowerStr(w) IN IF Len(w) <= 255 /\ x \in DOMAIN T THEN T[x] ELSE <<>>
Structs(T, w) == LET as == Ana(T, w) IN [i \in 1..Len(as) |-> as[i].st]
Candidates(w, o, T) ==
    LET n == Len(w)
        s1 == Structs(T, w)
        dotRemoved == s1 = <<>> /\ o.ignoreDot /\ n > 1 /\ w[n] = DOT
        sts == IF dotRemoved THEN Structs(T, Upto(w, n - 1)) ELSE s1
        m == IF dotRemoved THEN n - 1 ELSE n
        known == Eager([i \in 1..Lesser(31, Len(sts)) |-> BordersOf(sts[i], m) \o (IF dotRemoved THEN <<SP>> ELSE <<>>)])
        unknown == Eager([i \in 1..n |-> IF i > 1 /\ i < n /\ w[i] = HYPHEN /\ AllowRules(w, o.ugly) THEN EQ
                                   ELSE IF o.unknown THEN SP ELSE XX])
        all == IF known = <<>> THEN <<unknown>> ELSE known
        \* if the word need not be a compound, it is not
        kept == IF \E i \in 1..Len(all) : ~HasBorder(all[i]) THEN SelectSeq(all, LAMBDA h : ~HasBorder(h)) ELSE all
    IN [hs |-> kept, len |-> m]

\* rules inside the parts between borders
Syllables(w, h, len, o) ==
    LET lead == First(1, len, len + 1, LAMBDA i : h[i] # EQ)
        part(g, a, b) == IF b - a + 1 >= o.min
                         THEN Upto(g, a - 1) \o RuleHyphenation(Sub(w, a, b), Sub(g, a, b), o.ugly) \o From(g, b + 1)
                         ELSE g
        RECURSIVE P(_, _, _)
        P(a, e, g) ==                     \* part from a, looking at e
            IF e > len THEN (IF e = len + 1 /\ a < e THEN part(g, a, len) ELSE g)
            ELSE IF IsBreak(h[e]) THEN
                 LET g1 == part(g, a, e - 1)
                     a1 == IF h[e] = EQ THEN e + 1 ELSE e
                 IN P(a1, a1 + 1, g1)
            ELSE P(a, e + 1, g)
    IN P(lead, lead + 1, h)

Hyphenate(w, o, T) ==
    IF Len(w) < o.min THEN Times(SP, Len(w))
    ELSE LET c == Candidates(w, o, T)
             hs == Eager([i \in 1..Len(c.hs) |-> Syllables(w, c.hs[i], c.len, o)])
         IN Eager([i \in 1..Len(w) |-> IF \E k \in 1..Len(hs) : ~IsBreak(hs[k][i]) THEN SP ELSE hs[1][i]])

\* all positions where some analysis allows a break (soft hyphens may be written there)
PossibleBreaks(w, o, T) ==
    IF Len(w) < o.min THEN Times(SP, Len(w))
    ELSE LET c == Candidates(w, o, T)
             hs == Eager([i \in 1..Len(c.hs) |-> Syllables(w, c.hs[i], c.len, o)])
         IN [i \in 1..Len(w) |-> IF \E k \in 2..Len(hs) : hs[k][i] = HYPHEN THEN HYPHEN
                                 ELSE IF hs[1][i] = XX THEN SP ELSE hs[1][i]]

(* What users rely on *)
PatternLaws(w, p, o) ==
    /\ Len(p) = Len(w)
    /\ \A i \in 1..Len(p) : p[i] \in {SP, HYPHEN, EQ}
    /\ Len(w) > 0 => p[1] # HYPHEN /\ p[1] # EQ
    /\ \A i \in 1..Len(p) : p[i] = EQ => w[i] \in {HYPHEN, APOS}

(* Inserting the separator y into the word w with pattern p.                 *)
InsertHyphens(w, p, y, contextChanges) ==
    FlattenSeq([i \in 1..Len(w) |->
        CASE p[i] = HYPHEN -> y \o <<w[i]>>
          [] p[i] = EQ /\ contextChanges /\ w[i] # HYPHEN -> y
          [] OTHER -> <<w[i]>>])
=============================================================================
