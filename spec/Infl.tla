-------------------------------- MODULE Infl --------------------------------
(* Inflection of Finnish words by tables: vowel harmony, consonant           *)
(* gradation, and the rules of an inflection class.  A word may have marks   *)
(* of structure: = between the parts of a compound, | within a part.         *)
EXTENDS Chars

FRONT == "front"
BACK  == "back"
BOTH  == "both"

EQUALS == 61
BAR    == 124
DOLLAR == 36        \* a consonant that disappeared
aUml == 228
oUml == 246
aRing == 229
Vowel(c) == c \in {97, 111, aRing, 117, aUml, oUml, 121}           \* those that take part in harmony
BackVowel(c) == c \in {97, 111, aRing, 117}                        \* a o å u
FrontNoY(c) == c \in {aUml, oUml}
FrontVowel(c) == FrontNoY(c) \/ c = 121
LastWith(w, P(_)) == LET I == {i \in 1..Len(w) : P(w[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstWith(w, P(_)) == LET I == {i \in 1..Len(w) : P(w[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j >= i

\* endings of a word without parts: by its last back or front vowel, but y says nothing after back vowels
SimpleHarmony(word) ==
    LET w == LowerStr(word)
        back == LastWith(w, BackVowel)
        front == LastWith(w, FrontNoY)
        y == LastWith(w, LAMBDA c : c = 121)
    IN IF back = 0 THEN FRONT
       ELSE IF front = 0 /\ y = 0 THEN BACK
       ELSE IF y > back /\ y > front THEN BOTH
       ELSE IF back > front THEN BACK ELSE FRONT
\* of a compound: of its last part; a | allows the endings of the whole and of the part after it
RECURSIVE Harmony(_)
Harmony(w) ==
    LET e == LastWith(w, LAMBDA c : c = EQUALS \/ c = HYPHEN)
        b == FirstWith(w, LAMBDA c : c = BAR)
    IN IF w = <<>> \/ e = Len(w) THEN BOTH
       ELSE IF e # 0 THEN Harmony(From(w, e + 1))
       ELSE IF b = 0 THEN SimpleHarmony(w)
       ELSE IF b = Len(w) THEN BOTH
       ELSE LET x == SimpleHarmony(w)  y == Harmony(From(w, b + 1)) IN IF x = y THEN x ELSE BOTH

\* the same ending with front vowels
FrontOf(c) == CASE c = 97 -> aUml [] c = 111 -> oUml [] c = 117 -> 121 [] OTHER -> c
Fronted(s) == MapSeq(s, FrontOf)

----------------------------------------------------------------------------
(* Gradation: the strong and the weak stem, or NOGRADE. *)
NOGRADE == <<>>
Consonant(c) == ToLower(c) \in {98, 99, 100, 102, 103, 104, 106, 107, 108, 109, 110, 112, 113, 114, 115, 116, 118, 119, 120, 122}
End(w, k) == IF Len(w) < k THEN 0 ELSE w[Len(w) - k + 1]           \* the k'th character from the end
Drop(w, k) == Upto(w, Greater(Len(w) - k, 0))                      \* without the last k
LastOf(w, k) == From(w, Greater(Len(w) - k, 0) + 1)                  \* the last k
\* pairs of strong and weak consonants
PairGrades == {<<<<110, 107>>, <<110, 103>>>>, <<<<109, 112>>, <<109, 109>>>>, <<<<110, 116>>, <<110, 110>>>>,
               <<<<108, 116>>, <<108, 108>>>>, <<<<114, 116>>, <<114, 114>>>>}
\* the consonants before the last k characters, weak: what they are when strong
Strengthened(w, k, more) ==
    LET head == Drop(w, k)
        tail == LastOf(w, k)
        two == LastOf(head, 2)
        P == {p \in PairGrades : Len(two) = 2 /\ p[2] = two}
        c == End(head, 1)
    IN IF P # {} THEN <<Drop(head, 2) \o (CHOOSE p \in P : TRUE)[1] \o tail, w>>
       ELSE IF c = 100 THEN <<Drop(head, 1) \o <<116>> \o tail, w>>
       ELSE IF c \in {116, 107, 112} \cup more THEN <<head \o <<c>> \o tail, w>>
       ELSE IF c = 118 THEN <<Drop(head, 1) \o <<112>> \o tail, w>>
       ELSE NOGRADE
\* the consonants before the last character, strong: what they are when weak
Weakened(w) ==
    LET head == Drop(w, 1)
        tail == LastOf(w, 1)
        two == LastOf(head, 2)
        P == {p \in PairGrades : Len(two) = 2 /\ p[1] = two}
        c == End(head, 1)
        weak(h) == <<w, h \o tail>>
    IN IF Len(two) = 2 /\ two[1] = two[2] /\ c \in {116, 107, 112} THEN weak(Drop(head, 1))
       ELSE IF c = 112 /\ (two[1] = 109 \/ ~Consonant(tail[1])) THEN weak(Drop(head, 1) \o <<IF two[1] = 109 THEN 109 ELSE 118>>)
       ELSE IF P # {} THEN weak(Drop(head, 2) \o (CHOOSE p \in P : TRUE)[2])
       ELSE IF c = 116 THEN weak(Drop(head, 1) \o <<100>>)
       ELSE IF LastOf(w, 3) \in {<<117, 107, 117>>, <<121, 107, 121>>} THEN weak(Drop(head, 1) \o <<118>>)
       ELSE NOGRADE
\* a word that ends in a vowel and a consonant is weak
ClosedEnd(w) == Len(w) >= 3 /\ Consonant(End(w, 1)) /\ ~Consonant(End(w, 2))
Grades(w, g) ==
    LET n == Len(w)
        closed == IF ClosedEnd(w) THEN Strengthened(w, 2, {}) ELSE NOGRADE
    IN IF g = "-" THEN <<w, w>>
       ELSE IF closed # NOGRADE THEN closed
       ELSE CASE g = "av1" /\ n >= 3 -> Weakened(w)
              [] g = "av2" /\ n >= 2 -> Strengthened(w, 1, {98, 103})
              \* k becomes j
              [] g = "av3" /\ n >= 3 /\ End(w, 2) = 107 -> <<w, Drop(w, IF Consonant(End(w, 3)) THEN 2 ELSE 3) \o <<106>> \o LastOf(w, 1)>>
              [] g = "av4" /\ n >= 3 /\ End(w, 2) = 106 -> <<Drop(w, 2) \o <<107>> \o LastOf(w, 1), w>>
              [] g = "av4" /\ n >= 3 /\ End(w, 2) # 106 /\ End(w, 3) = 106 -> <<Drop(w, 3) \o <<107>> \o LastOf(w, 2), w>>
              \* k disappears
              [] g = "av5" /\ n >= 2 /\ End(w, 2) = 107 -> <<w, Drop(w, 2) \o <<DOLLAR>> \o LastOf(w, 1)>>
              [] g = "av6" /\ n >= 1 -> LET k == IF Consonant(End(w, 1)) THEN 2 ELSE 1 IN <<Drop(w, k) \o <<107>> \o LastOf(w, k), w>>
              [] OTHER -> NOGRADE
\* the letter by which the list of words of Kotus calls the alternation
Called == {<<107, 103, "G">>, <<112, 109, "H">>, <<116, 108, "I">>, <<116, 110, "J">>, <<116, 114, "K">>, <<116, 100, "F">>,
           <<112, 118, "E">>, <<107, 118, "M">>}
CalledDouble == {<<107, "A">>, <<112, "B">>, <<116, "C">>, <<98, "O">>, <<103, "P">>}
KotusGrade(w, g) ==
    LET gr == IF g \in {"av1", "av2", "av3", "av4", "av5", "av6"} /\ Len(w) >= 3 THEN Grades(w, g) ELSE NOGRADE
        strong == gr[1]
        weak == gr[2]
        closed == ClosedEnd(w) /\ Strengthened(w, 2, {}) # NOGRADE
        at == IF closed THEN 3 ELSE 2          \* where the consonant is, from the end
    IN IF gr = NOGRADE THEN ""
       ELSE IF ~closed /\ g \in {"av3", "av4"} THEN "L"
       ELSE IF ~closed /\ g \in {"av5", "av6"} THEN "D"
       ELSE IF Len(strong) = Len(weak) THEN (CHOOSE x \in Called : x[1] = End(strong, at) /\ x[2] = End(weak, at))[3]
       ELSE (CHOOSE x \in CalledDouble : x[1] = End(strong, at))[2]
\* between equal vowels there is an apostrophe where the k was
Apostrophe(w) ==
    LET i == IndexOf(w, DOLLAR)
        apart == i > 1 /\ i < Len(w) /\ w[i - 1] = w[i + 1]
                 /\ (w[i - 1] \in {105, 111, 117, 121, oUml} \/ (w[i - 1] \in {97, aUml} /\ i > 2 /\ w[i - 2] = w[i - 1]))
    IN IF i = 0 THEN w ELSE IF apart THEN MapSeq(w, LAMBDA c : IF c = DOLLAR THEN APOS ELSE c) ELSE Without(w, DOLLAR)

----------------------------------------------------------------------------
(* Classes and rules: a rule takes an ending away and adds another to the    *)
(* strong or the weak stem.                                                  *)
GradeWay(g) == IF g = "-" THEN "none" ELSE IF g \in {"av1", "av3", "av5"} THEN "sw" ELSE "ws"
Matches(alts, word) == LET w == LowerStr(word) IN
    \E a \in 1..Len(alts) : Len(alts[a]) <= Len(w) /\ \A i \in 1..Len(alts[a]) : \E k \in 1..Len(alts[a][i]) : alts[a][i][k] = w[Len(w) - Len(alts[a]) + i]
\* the endings of the rule: pairs of what is taken away and what is added
Endings(r) == IF r.alts = <<>> THEN <<<<r.pre, r.add>>>>
    ELSE Eager([i \in 1..Len(r.alts) |-> <<r.pre \o <<r.alts[i]>> \o r.post,
                                          IF r.cap = 1 THEN MapSeq(r.add, LAMBDA c : IF c = 0 THEN r.alts[i] ELSE c) ELSE r.add>>])
Plain(w) == SelectSeq(w, LAMBDA c : c # EQUALS /\ c # BAR)
\* derivations whose vowels depend on the stem only
ByStem == {"subst_tO", "subst_Os", "verbi_AjAA", "verbi_AhtAA", "verbi_AUttAA", "verbi_AUtellA"}
StemHarmony(name, stem) ==
    LET e == IndexOf(stem, EQUALS)
        w == LowerStr(From(stem, e + 1))
        back == LastWith(w, BackVowel)
        front == LastWith(w, FrontVowel)
    IN IF front > back THEN FRONT ELSE IF back > front THEN BACK
       ELSE IF name \in {"subst_tO", "subst_Os"} THEN BACK
       ELSE IF HasChar(w, 101) THEN FRONT ELSE BACK
Form(r, w) == [name |-> r.name, ch |-> r.ch, prio |-> r.prio, w |-> Apostrophe(w)]
ByRule(r, base, infclass, vt) ==
    LET es == Endings(r)
        one(e) == LET stem == Drop(base, Len(e[1]))
                      h == IF r.name \in ByStem THEN StemHarmony(r.name, stem) ELSE BACK
                  IN IF r.name \in ByStem \/ (r.name = "partitiivi" /\ infclass = "meri")
                     THEN <<Form(r, Plain(stem) \o (IF h = FRONT THEN Fronted(e[2]) ELSE e[2]))>>
                     ELSE (IF vt \in {BACK, BOTH} /\ EndsWith(base, e[1]) THEN <<Form(r, Plain(stem) \o e[2])>> ELSE <<>>)
                          \o (IF vt \in {FRONT, BOTH} /\ EndsWith(base, Fronted(e[1])) THEN <<Form(r, Plain(stem) \o Fronted(e[2]))>> ELSE <<>>)
    IN FlattenSeq(Eager([i \in 1..Len(es) |-> one(es[i])]))
StemOf(type, word) == IF Len(word) <= type.rm THEN (IF type.rm = 0 THEN word ELSE <<>>) ELSE Drop(word, type.rm)
InflectBy(type, word, infclass, g, vowels) ==
    IF infclass \notin {type.sm[i] : i \in 1..Len(type.sm)} THEN <<>>
    ELSE LET gr == Grades(StemOf(type, word), g) IN
         IF gr = NOGRADE \/ (g # "-" /\ GradeWay(g) # type.grad) \/ ~Matches(type.match, word) THEN <<>>
         ELSE LET vt == IF vowels = "" THEN Harmony(word) ELSE vowels
              IN FlattenSeq(Eager([i \in 1..Len(type.rules) |-> ByRule(type.rules[i], gr[IF type.rules[i].strong = 1 THEN 1 ELSE 2], infclass, vt)]))
\* the first class that gives anything
RECURSIVE InflectFrom(_, _, _, _, _, _)
InflectFrom(types, i, word, infclass, g, vowels) ==
    IF i > Len(types) THEN <<>>
    ELSE LET f == InflectBy(types[i], word, infclass, g, vowels) IN
         IF f # <<>> THEN f ELSE InflectFrom(types, i + 1, word, infclass, g, vowels)
Inflect(types, word, infclass, g, vowels) ==
    IF g \notin {"-", "av1", "av2", "av3", "av4", "av5", "av6"} THEN <<>> ELSE InflectFrom(types, 1, word, infclass, g, vowels)

=============================================================================
