------------------------------- MODULE Morph --------------------------------
(* Morphological analysis of Finnish words.  The lexicon gives, for a lower  *)
(* case word, a sequence of outputs.  An output is a sequence of items: tags *)
(* such as [Ln] or [Sg] (t is the name between the brackets) and characters  *)
(* (t = "", c the character).  Sections [Xp]..[X] (base form), [Xj]..[X]     *)
(* (base form of a later part), [Xr]..[X] (explicit structure) and           *)
(* [Xs]..[X] (word id) enclose characters which are not part of the word.    *)
EXTENDS Chars

EQ == 61                    \* '=' morpheme boundary in a structure
ChI == 105  ChP == 112      \* i, p: upper and lower case letter
ChJ == 106  ChQ == 113      \* j, q: the same in an abbreviation
PLUS == 43  LPAR == 40  RPAR == 41  ChW == 119

Vowels == {97, 101, 105, 111, 117, 121, 228, 246}
Consonants == {98,99,100,102,103,104,106,107,108,109,110,112,113,114,115,116,118,119,120,122,353,382}

Kind(t) == IF Len(t) = 0 THEN "" ELSE SubSeq(t, 1, 1)     \* first letter of a tag
Arg(t) == SubSeq(t, 2, Len(t))                            \* the rest of it
IsChr(x) == x.t = ""
IsTag(x) == x.t # ""
ItemLen(x) == IF x.t = "" THEN 1 ELSE Len(x.t) + 2

\* positions: Start(o)[k] is the number of characters printed before item k
Starts(o) == LET S[k \in Nat] == IF k = 1 THEN 0 ELSE S[k - 1] + ItemLen(o[k - 1])
             IN [k \in 1..(Len(o) + 1) |-> S[k]]

\* section[k]: "" outside of sections, else the letter of the section item k lies in
\* (the tags that open and close a section belong to it)
Sections(o) ==
    FoldLeft(LAMBDA acc, x :
        LET cur == IF acc = <<>> THEN "" ELSE
                   LET p == acc[Len(acc)] IN IF p = "end" THEN "" ELSE p IN
        Append(acc, IF cur = "" THEN (IF x.t \in {"Xp", "Xj", "Xr", "Xs"} THEN Arg(x.t) ELSE "")
                    ELSE IF x.t = "X" THEN "end" ELSE cur),
        <<>>, o)

\* the contents of the section opened by item k
Content(o, k) == LET e == First(k + 1, Len(o), Len(o) + 1, LAMBDA i : o[i].t = "X")
                 IN [i \in 1..(e - k - 1) |-> o[k + i].c]
Opens(o, sec, k) == sec[k] \notin {"", "end"} /\ IsTag(o[k])

NoEq(s) == SelectSeq(s, LAMBDA c : c # EQ)
TagPositions(o, names) == {k \in 1..Len(o) : o[k].t \in names}

----------------------------------------------------------------------------
(* Which outputs are analyses: hyphens between the parts of a compound are   *)
(* required exactly where two equal vowels meet or after a digit, unless the *)
(* lexicon says otherwise; a compound that starts with a proper noun may not *)
(* continue with a common noun without a hyphen.                             *)
ValidState == [b4 |-> 0, last |-> 0, bound |-> FALSE, hyph |-> FALSE, allow |-> FALSE, just |-> FALSE,
               need |-> FALSE, missing |-> FALSE, proper |-> FALSE, noun |-> FALSE, ok |-> TRUE, skip |-> FALSE]
IsValidAnalysis(o) ==
    LET n == Len(o)
        sec == Sections(o)
        step(s, k) ==
          LET x == o[k] IN
          IF ~s.ok THEN s
          ELSE IF s.skip THEN [s EXCEPT !.skip = FALSE]
          ELSE IF sec[k] # "" THEN s
          ELSE IF IsTag(x) THEN
             CASE x.t = "Isf" -> [s EXCEPT !.allow = TRUE, !.just = TRUE]
               [] x.t = "Icu" -> [s EXCEPT !.bound = FALSE, !.allow = TRUE, !.need = TRUE]
               [] x.t = "Ica" -> [s EXCEPT !.missing = FALSE, !.noun = FALSE]
               [] x.t \in {"Lee", "Lem", "Lep", "Les"} -> [s EXCEPT !.proper = TRUE, !.noun = FALSE]
               [] x.t \in {"Ln", "Lnl"} -> [s EXCEPT !.noun = TRUE]
               [] x.t = "Dg" -> [s EXCEPT !.proper = FALSE]
               [] x.t = "Bh" -> [s EXCEPT !.bound = TRUE, !.hyph = FALSE, !.ok = ~s.missing,
                                          !.missing = s.missing \/ s.need]
               [] OTHER -> s
          ELSE IF x.c = HYPHEN THEN
             LET withBoundary == k < n - 1 /\ o[k + 1].t = "Bh" IN
             [s EXCEPT !.proper = FALSE, !.noun = FALSE,
                       !.bound = @ \/ withBoundary, !.hyph = @ \/ withBoundary, !.skip = withBoundary]
          ELSE
             LET allow == s.allow \/ (s.bound /\ (s.last = 0 \/ (s.b4 = 105 /\ s.last = 115)))
                 a == ToLower(s.last)  b == ToLower(x.c)
                 must == (a = b /\ a \in Vowels) \/ IsDigitCh(a)
                 t == IF ~s.bound THEN s
                      ELSE [s EXCEPT !.need = @ /\ ~s.hyph,
                                     !.ok = (allow /\ s.hyph) \/ (must = s.hyph),
                                     !.bound = FALSE,
                                     !.allow = IF s.just THEN allow ELSE FALSE,
                                     !.just = FALSE]
             IN [t EXCEPT !.b4 = IF s.bound /\ ~(allow /\ s.hyph) THEN a ELSE s.last, !.last = x.c]
        end == FoldLeft(step, ValidState, [k \in 1..n |-> k])
    IN end.ok /\ ~end.missing /\ (~end.proper \/ ~end.noun)

----------------------------------------------------------------------------
(* The structure: one symbol for each character of the word (i, p, j, q, '-' *)
(* or ':'), with '=' at morpheme boundaries.                                 *)
DefaultStructure(st, count, title, abbr) ==
    st \o [i \in 1..count |-> IF i = 1 /\ title THEN (IF abbr THEN ChJ ELSE ChI) ELSE (IF abbr THEN ChQ ELSE ChP)]

RawStructure(o, wlen) ==
    LET n == Len(o)
        pos == Starts(o)
        total == pos[n + 1]
        sec == Sections(o)
        \* the letters seen since the last boundary get default symbols
        flush(s) == IF s.seen > s.given
                    THEN [s EXCEPT !.st = DefaultStructure(@, s.seen - s.given, s.title, s.abbr),
                                   !.title = FALSE,
                                   !.missing = @ - (s.seen - s.given)]
                    ELSE s
        step(s, k) ==
          LET x == o[k] IN
          IF Opens(o, sec, k) THEN
             IF sec[k] # "r" THEN s
             ELSE LET v == Content(o, k) IN
                  [s EXCEPT !.title = FALSE, !.st = @ \o v, !.given = @ + Len(NoEq(v)),
                            !.missing = @ - Len(SelectSeq(NoEq(v), LAMBDA c : c # HYPHEN))]
          ELSE IF sec[k] # "" THEN s
          ELSE IF IsTag(x) THEN
             CASE Kind(x.t) = "B" /\ x.t # "Bh" ->
                    LET s1 == flush(IF pos[k] = 1 THEN [s EXCEPT !.st = Append(@, EQ)] ELSE s)
                        s2 == IF pos[k] # 1 /\ pos[k] + 5 < total /\ s1.st[Len(s1.st)] # EQ
                              THEN [s1 EXCEPT !.st = Append(@, EQ)] ELSE s1
                    IN [s2 EXCEPT !.seen = 0, !.given = 0]
               [] x.t \in {"Lee", "Lem", "Lep", "Les"} -> [s EXCEPT !.title = TRUE, !.abbr = FALSE]
               [] x.t = "La" -> [s EXCEPT !.abbr = TRUE]
               [] x.t = "Lur" -> [s EXCEPT !.abbr = pos[k] + 5 < total]
               [] x.t = "Lu" -> [s EXCEPT !.abbr = pos[k] + 5 < total /\ k < n /\ IsChr(o[k + 1]) /\ IsDigitCh(o[k + 1].c)]
               [] Kind(x.t) = "L" -> [s EXCEPT !.abbr = FALSE]
               [] OTHER -> s
          ELSE IF x.c = HYPHEN THEN
             LET s1 == IF s.seen > s.given
                       THEN [flush(s) EXCEPT !.st = Append(@, HYPHEN), !.seen = 0, !.given = 0]
                       ELSE IF k # 1
                       THEN IF s.seen = s.given THEN [s EXCEPT !.st = Append(@, HYPHEN)] ELSE [s EXCEPT !.seen = @ + 1]
                       ELSE s
                 s2 == [s1 EXCEPT !.missing = IF @ > 0 THEN @ - 1 ELSE 0]
             IN IF Len(s2.st) = 1 THEN [s2 EXCEPT !.st = <<HYPHEN>>] ELSE s2
          ELSE IF x.c = COLON THEN
             LET s1 == IF s.abbr
                       THEN [IF s.seen > s.given THEN [flush(s) EXCEPT !.seen = 0, !.given = 0] ELSE s
                             EXCEPT !.abbr = FALSE]
                       ELSE s
             IN [s1 EXCEPT !.st = Append(@, COLON), !.missing = IF @ > 0 THEN @ - 1 ELSE 0]
          ELSE [s EXCEPT !.seen = @ + 1]
        init == [st |-> <<EQ>>, missing |-> wlen, seen |-> 0, given |-> 0, title |-> FALSE, abbr |-> FALSE]
        end == FoldLeft(step, init, [k \in 1..n |-> k])
    IN DefaultStructure(end.st, end.missing, end.title, end.abbr)

(* Derivation by [Dg] (inhabitant and language names) makes the capital of   *)
(* the current hyphenated part small; [De] in a hyphenated place name makes  *)
(* the first letter a capital, as does a final hyphen.                       *)
FixStructure(st, o) ==
    LET n == Len(o)
        hyphensBefore(q, i) == Cardinality({j \in 1..(i - 1) : q[j] = HYPHEN})
        lowerPart(q, count) == [i \in 1..Len(q) |-> IF q[i] = ChI /\ hyphensBefore(q, i) = count THEN ChP ELSE q[i]]
        raiseFirst(q) == LET i == First(1, Len(q), 0, LAMBDA k : q[k] \in {ChI, ChP}) IN
                         IF i = 0 THEN q ELSE SetAt(q, i, ChI)
        step(s, k) ==
          LET x == o[k] IN
          IF s.done THEN (IF k = n /\ IsChr(x) /\ x.c = HYPHEN THEN [s EXCEPT !.st = raiseFirst(@)] ELSE s)
          ELSE IF s.raised THEN s
          ELSE IF x.t = "Dg" THEN [s EXCEPT !.st = lowerPart(@, s.hy)]
          ELSE IF x.t = "De" THEN [s EXCEPT !.de = TRUE]
          ELSE IF x.t = "Ln" THEN [s EXCEPT !.de = FALSE]
          ELSE IF IsChr(x) /\ x.c = HYPHEN THEN
             IF ~s.de THEN [s EXCEPT !.hy = @ + 1]
             ELSE IF k = n \/ \E i \in (k + 1)..n : o[i].t = "Lep"
                  THEN [s EXCEPT !.st = raiseFirst(@), !.raised = TRUE]
                  ELSE [s EXCEPT !.done = TRUE]
          ELSE s
    IN FoldLeft(step, [st |-> st, de |-> FALSE, hy |-> 0, done |-> FALSE, raised |-> FALSE], [k \in 1..n |-> k]).st

Structure(o, wlen) == FixStructure(RawStructure(o, wlen), o)

----------------------------------------------------------------------------
(* Attributes from the tags, read from the end of the output: the last part  *)
(* of a compound decides.                                                    *)
ClassMap == [n |-> "nimisana", l |-> "laatusana", nl |-> "nimisana_laatusana", h |-> "huudahdussana",
    ee |-> "etunimi", es |-> "sukunimi", ep |-> "paikannimi", em |-> "nimi", t |-> "teonsana", a |-> "lyhenne",
    s |-> "seikkasana", u |-> "lukusana", ur |-> "lukusana", r |-> "asemosana", c |-> "sidesana",
    d |-> "suhdesana", k |-> "kieltosana", p |-> "etuliite"]
CaseMap == [n |-> "nimento", g |-> "omanto", p |-> "osanto", es |-> "olento", tr |-> "tulento",
    ine |-> "sisaolento", ela |-> "sisaeronto", ill |-> "sisatulento", ade |-> "ulkoolento", abl |-> "ulkoeronto",
    all |-> "ulkotulento", ab |-> "vajanto", ko |-> "seuranto", in |-> "keinonto", sti |-> "kerrontosti", ak |-> "kohdanto"]
ComparisonMap == [c |-> "comparative", s |-> "superlative"]
MoodMap == [n1 |-> "A-infinitive", n2 |-> "E-infinitive", n3 |-> "MA-infinitive", n4 |-> "MINEN-infinitive",
    n5 |-> "MAINEN-infinitive", t |-> "indicative", e |-> "conditional", k |-> "imperative", m |-> "potential"]
NumberMap == [y |-> "singular", m |-> "plural"]
PersonMap == [x \in {"1", "2", "3", "4"} |-> x]
TenseMap == [p |-> "present_simple", i |-> "past_imperfective"]
FocusMap == [kin |-> "kin", kaan |-> "kaan"]
PossessiveMap == [x \in {"1y", "2y", "1m", "2m", "3"} |->
    CASE x = "1y" -> "1s" [] x = "2y" -> "2s" [] x = "1m" -> "1p" [] x = "2m" -> "2p" [] OTHER -> "3"]
NegativeMap == [t |-> "true", f |-> "false", b |-> "both"]
ParticipleMap == [v |-> "present_active", a |-> "present_passive", u |-> "past_active", t |-> "past_passive",
    m |-> "agent", e |-> "negation"]

Range_(f) == {f[x] : x \in DOMAIN f}
\* the finite value sets that the library reports for the attributes
AttributeValues ==
    [CLASS |-> Range_(ClassMap), NUMBER |-> Range_(NumberMap), COMPARISON |-> Range_(ComparisonMap) \cup {"positive"},
     FOCUS |-> Range_(FocusMap), TENSE |-> Range_(TenseMap), SIJAMUOTO |-> Range_(CaseMap), MOOD |-> Range_(MoodMap),
     PERSON |-> Range_(PersonMap), PARTICIPLE |-> Range_(ParticipleMap), NEGATIVE |-> Range_(NegativeMap),
     POSSESSIVE |-> Range_(PossessiveMap), KYSYMYSLIITE |-> {"true"}, MALAGA_VAPAA_JALKIOSA |-> {"true"},
     POSSIBLE_GEOGRAPHICAL_NAME |-> {"true"}, REQUIRE_FOLLOWING_VERB |-> {"A-infinitive", "MA-infinitive"}]

NA == "-"                                  \* attribute not set
EnumKeys == DOMAIN AttributeValues
Has(a, k) == a[k] # NA
SetOnce(a, k, v) == IF a[k] = NA THEN [a EXCEPT ![k] = v] ELSE a
FromMap(a, k, m, x) == IF x \in DOMAIN m THEN SetOnce(a, k, m[x]) ELSE a
NominalInfinitives == {"E-infinitive", "MINEN-infinitive", "MA-infinitive"}

TagAttributes(o) ==
    LET n == Len(o)
        pos == Starts(o)
        endsLn == n > 0 /\ o[n].t = "Ln"
        startsLu == n > 0 /\ o[1].t = "Lu"
        startsHyphen == n > 0 /\ IsChr(o[1]) /\ o[1].c = HYPHEN
        later(k, t) == \E i \in (k + 1)..n : o[i].t = t
        step(s, k) ==
          LET x == o[k]  a == s.a  g == Arg(x.t) IN
          CASE Kind(x.t) = "L" ->
                 IF s.classSet THEN s
                 ELSE LET a1 == IF x.t = "Lnl"
                                THEN SetOnce(a, "CLASS",
                                       IF s.toAdj \/ a.COMPARISON \in {"comparative", "superlative"} \/ startsLu
                                       THEN "laatusana" ELSE "nimisana_laatusana")
                                ELSE FromMap(a, "CLASS", ClassMap, g)
                      IN [s EXCEPT !.a = a1, !.classSet = TRUE]
            [] Kind(x.t) = "N" -> IF a.CLASS \in {"etuliite", "seikkasana"} THEN s ELSE [s EXCEPT !.a = FromMap(a, "NUMBER", NumberMap, g)]
            [] Kind(x.t) = "P" -> [s EXCEPT !.a = FromMap(a, "PERSON", PersonMap, g)]
            [] Kind(x.t) = "S" -> IF a.CLASS \in {"etuliite", "seikkasana"} THEN s
                                  ELSE [s EXCEPT !.a = FromMap(a, "SIJAMUOTO", CaseMap, g), !.toAdj = @ \/ g = "sti"]
            [] Kind(x.t) = "T" -> IF Has(a, "CLASS") THEN s ELSE [s EXCEPT !.a = FromMap(a, "MOOD", MoodMap, g)]
            [] Kind(x.t) = "A" -> [s EXCEPT !.a = FromMap(a, "TENSE", TenseMap, g)]
            [] Kind(x.t) = "F" -> [s EXCEPT !.a = IF g = "ko" THEN SetOnce(a, "KYSYMYSLIITE", "true") ELSE FromMap(a, "FOCUS", FocusMap, g)]
            [] Kind(x.t) = "O" -> [s EXCEPT !.a = FromMap(a, "POSSESSIVE", PossessiveMap, g)]
            [] Kind(x.t) = "C" -> IF Has(a, "CLASS") THEN s ELSE [s EXCEPT !.a = FromMap(a, "COMPARISON", ComparisonMap, g)]
            [] Kind(x.t) = "E" -> [s EXCEPT !.a = FromMap(a, "NEGATIVE", NegativeMap, g)]
            [] Kind(x.t) = "R" -> IF ~s.inner /\ (a.CLASS \in {NA, "laatusana"} \/ endsLn)
                                  THEN [s EXCEPT !.a = FromMap(a, "PARTICIPLE", ParticipleMap, g)] ELSE s
            [] Kind(x.t) = "I" ->
                 CASE g = "vj" -> IF startsHyphen THEN s ELSE [s EXCEPT !.a = SetOnce(a, "MALAGA_VAPAA_JALKIOSA", "true")]
                   [] g = "ca" -> IF ~later(k, "Bc") /\ ~later(k, "Ll") /\ a.CLASS \in {NA, "nimisana", "nimisana_laatusana"}
                                  THEN [s EXCEPT !.a = SetOnce(a, "POSSIBLE_GEOGRAPHICAL_NAME", "true")] ELSE s
                   [] g \in {"ra", "rm"} -> IF a.MOOD \notin NominalInfinitives /\ a.CLASS \in {NA, "teonsana"}
                                  THEN [s EXCEPT !.a = SetOnce(a, "REQUIRE_FOLLOWING_VERB", IF g = "ra" THEN "A-infinitive" ELSE "MA-infinitive")]
                                  ELSE s
                   [] OTHER -> s
            [] x.t = "Bc" ->
                 IF pos[k] < 5 THEN s
                 ELSE LET afterHyphen == \/ (k > 1 /\ IsChr(o[k - 1]) /\ o[k - 1].c = HYPHEN)
                                         \/ (k > 2 /\ o[k - 1].t = "Bh" /\ IsChr(o[k - 2]) /\ o[k - 2].c = HYPHEN)
                      IN IF afterHyphen /\ ~s.classSet /\ ~Has(a, "CLASS")
                         THEN [s EXCEPT !.a = SetOnce(a, "CLASS", "etuliite"), !.classSet = TRUE, !.inner = TRUE]
                         ELSE [s EXCEPT !.inner = TRUE]
            [] OTHER -> s
    IN FoldLeft(step, [a |-> [k \in EnumKeys |-> NA], classSet |-> FALSE, toAdj |-> FALSE, inner |-> FALSE],
                [i \in 1..n |-> n + 1 - i]).a

Attributes(o) ==
    LET a == TagAttributes(o)
        a1 == IF (a.CLASS \notin {NA, "teonsana"}) \/ a.MOOD \in NominalInfinitives THEN [a EXCEPT !.NEGATIVE = NA] ELSE a
        a2 == IF a1.PARTICIPLE = "past_passive" THEN [a1 EXCEPT !.CLASS = "laatusana"] ELSE a1
        a3 == IF a2.SIJAMUOTO = "kerrontosti" THEN [a2 EXCEPT !.NUMBER = NA] ELSE a2
    IN IF a3.COMPARISON = NA
       THEN IF a3.CLASS \in {"laatusana", "nimisana_laatusana"} THEN [a3 EXCEPT !.COMPARISON = "positive"] ELSE a3
       ELSE IF a3.CLASS = "nimisana" THEN [a3 EXCEPT !.COMPARISON = NA] ELSE a3

----------------------------------------------------------------------------
(* Base form.  NONE when there is none.                                      *)
NONE == <<0>>

NumeralBaseform(o) ==       \* o: the output after the first [Lu]
    LET n == Len(o)
        pos == Starts(o)
        total == pos[n + 1]
        sec == Sections(o)
        startDigit == n > 0 /\ IsChr(o[1]) /\ (IsDigitCh(o[1].c) \/ o[1].c = HYPHEN)
        \* a numeral that lacks its last part, or a noun or adjective in it: not a numeral after all
        giveUp == \E k \in 1..n : \/ o[k].t = "Bc" /\ k = n
                                  \/ o[k].t \in {"Ln", "Ll", "Lnl"} /\ pos[k] + 6 < total
        step(s, k) ==
          LET x == o[k] IN
          IF Opens(o, sec, k) THEN
             IF sec[k] \in {"p", "j"} THEN [s EXCEPT !.bf = @ \o Content(o, k), !.passed = TRUE, !.digits = FALSE]
             ELSE [s EXCEPT !.passed = @ \/ s.digits, !.digits = FALSE]
          ELSE IF sec[k] # "" THEN s
          ELSE IF IsTag(x) THEN
             [s EXCEPT !.digits = FALSE,
                       !.passed = IF x.t = "Bc" /\ pos[k] + 6 < total THEN FALSE ELSE @ \/ s.digits]
          ELSE IF s.digits \/ ~s.passed \/ x.c = HYPHEN THEN [s EXCEPT !.bf = Append(@, x.c)]
          ELSE s
    IN IF giveUp THEN NONE
       ELSE FoldLeft(step, [bf |-> <<>>, passed |-> FALSE, digits |-> startDigit], [k \in 1..n |-> k]).bf

Baseform(o, st) ==
    LET n == Len(o)
        pos == Starts(o)
        total == pos[n + 1]
        sec == Sections(o)
        firstClass == First(1, n, 0, LAMBDA k : Kind(o[k].t) = "L")
        lu == firstClass # 0 /\ o[firstClass].t = "Lu" /\ pos[firstClass] + 6 < total
        numeral == IF lu THEN NumeralBaseform(From(o, firstClass + 1)) ELSE NONE
        \* the word "is" right before the hyphen at k
        afterIs(k) == k > 2 /\ IsChr(o[k - 1]) /\ IsChr(o[k - 2]) /\ o[k - 2].c = 105 /\ o[k - 1].c = 115
        placeNameFollows(k) == \E i \in k..n : o[i].t = "Lep"
        plain == SelectSeq(st, LAMBDA c : c # EQ)
        step(s, k) ==
          LET x == o[k] IN
          IF Opens(o, sec, k) THEN
             IF sec[k] \in {"p", "j"}
             THEN LET v == Content(o, k) IN
                  [s EXCEPT !.xp = k, !.xpAt = Len(s.bf), !.hy = Cardinality({i \in 1..Len(v) : v[i] = HYPHEN})]
             ELSE s
          ELSE IF sec[k] # "" THEN s
          ELSE IF x.t = "De" THEN [s EXCEPT !.de = ~s.ignoreDe]
          ELSE IF lu /\ k = firstClass THEN s
          ELSE IF Kind(x.t) = "L" THEN [s EXCEPT !.de = FALSE, !.ignoreDe = x.t \notin {"Ll", "Lnl"}]
          ELSE IF IsTag(x) THEN s
          ELSE
             LET s1 == IF x.c # HYPHEN THEN s
                       ELSE IF s.hy > 0 THEN [s EXCEPT !.hy = @ - 1, !.de = FALSE]
                       ELSE LET v == Content(o, s.xp)
                                replace == s.de /\ s.xp # 0 /\ ~afterIs(k) /\ placeNameFollows(k)
                            IN [s EXCEPT !.bf = IF replace
                                                THEN Upto(@, s.xpAt) \o NoEq(IF v = <<>> THEN v ELSE SetAt(v, 1, ToUpper(v[1])))
                                                ELSE @,
                                         !.xp = 0, !.de = FALSE]
                 up == s.sp <= Len(plain) /\ plain[s.sp] \in {ChI, ChJ}
             IN [s1 EXCEPT !.bf = Append(@, IF up THEN ToUpper(x.c) ELSE x.c), !.sp = @ + 1]
        end == FoldLeft(step, [bf |-> <<>>, xp |-> 0, xpAt |-> 0, hy |-> 0, sp |-> 1, de |-> FALSE, ignoreDe |-> FALSE],
                        [k \in 1..n |-> k])
        bf == IF end.xp = 0 THEN end.bf ELSE Upto(end.bf, end.xpAt) \o NoEq(Content(o, end.xp))
        \* characters before the first class tag precede the numeral
        before == LET F == FoldLeft(step, [bf |-> <<>>, xp |-> 0, xpAt |-> 0, hy |-> 0, sp |-> 1, de |-> FALSE, ignoreDe |-> FALSE],
                                    [k \in 1..(firstClass - 1) |-> k]) IN F.bf
    IN IF lu /\ numeral # NONE THEN before \o numeral
       ELSE IF bf = <<>> THEN NONE ELSE bf

----------------------------------------------------------------------------
(* Word bases and word ids: "+part(base)" for each part.                     *)
WordBases(o) ==
    LET n == Len(o)
        sec == Sections(o)
        close(s) == [s EXCEPT !.ids = IF s.xs = <<>> THEN @ ELSE @ \o <<LPAR, ChW>> \o s.xs \o <<RPAR>>,
                              !.bases = IF s.xp = <<>> THEN @ ELSE @ \o <<LPAR>> \o s.xp \o <<RPAR>>,
                              !.xs = <<>>, !.xp = <<>>]
        mark(s) == [s EXCEPT !.idLast = Len(s.ids), !.baseLast = Len(s.bases)]
        step(s, k) ==
          LET x == o[k] IN
          IF Opens(o, sec, k) THEN
             LET v == Content(o, k) IN
             CASE sec[k] = "s" -> [s EXCEPT !.xs = v, !.any = TRUE]
               [] sec[k] = "p" -> [s EXCEPT !.xp = v]
               [] sec[k] = "j" -> [IF s.in THEN mark(close(s)) ELSE s EXCEPT !.xp = IF v = <<>> THEN <<>> ELSE <<PLUS>> \o v]
               [] OTHER -> s
          ELSE IF sec[k] # "" THEN s
          ELSE IF Kind(x.t) = "L" THEN [close(s) EXCEPT !.in = FALSE]
          ELSE IF IsTag(x) THEN s
          ELSE IF x.c = HYPHEN /\ k < n /\ Kind(o[k + 1].t) = "B" THEN
             LET s1 == close(s) IN
             [s1 EXCEPT !.in = FALSE, !.ids = @ \o <<PLUS, HYPHEN>>, !.bases = @ \o <<PLUS, HYPHEN>>]
          ELSE
             LET s1 == IF s.in THEN s
                       ELSE [mark([s EXCEPT !.ids = Append(@, PLUS), !.bases = Append(@, PLUS)]) EXCEPT !.in = TRUE]
             IN [s1 EXCEPT !.ids = Append(@, x.c), !.bases = Append(@, x.c)]
        e == FoldLeft(step, [ids |-> <<>>, bases |-> <<>>, idLast |-> 0, baseLast |-> 0, xs |-> <<>>, xp |-> <<>>,
                             in |-> FALSE, any |-> FALSE], [k \in 1..n |-> k])
        plus == IF e.xp # <<>> /\ e.baseLast > 0 /\ e.xp[1] = PLUS /\ e.bases[e.baseLast] = PLUS THEN 1 ELSE 0
        bases == IF e.xp = <<>> THEN e.bases
                 ELSE Upto(e.bases, e.baseLast - plus) \o NoEq(e.xp) \o <<LPAR>> \o e.xp \o <<RPAR>>
        ids0 == IF e.xp = <<>> THEN e.ids ELSE Upto(e.ids, e.idLast - plus) \o NoEq(e.xp)
        ids == IF e.xs = <<>> THEN ids0 ELSE ids0 \o <<LPAR, ChW>> \o e.xs \o <<RPAR>>
    IN [bases |-> bases, ids |-> IF e.any THEN ids ELSE NONE]

----------------------------------------------------------------------------
(* A compound whose last part makes it a name of an organisation ([Ion]) has *)
(* a second analysis as a name, written with a capital.                      *)
IsOrgName(o, attrs) ==
    LET n == Len(o)
        pos == Starts(o)
        total == pos[n + 1]
        ions == {k \in 1..n : o[k].t = "Ion" /\ pos[k] >= 8 /\ pos[k] + 5 <= total}
        bcs == {k \in 1..n : o[k].t = "Bc" /\ pos[k] + 5 <= total}
    IN /\ attrs.CLASS = "nimisana" /\ total >= 13
       /\ ~(IsChr(o[1]) /\ o[1].c = HYPHEN) /\ o[1].t # "La"
       /\ \E k \in ions : /\ ~\E b \in bcs : b > k
                          /\ \E b \in bcs : b < k /\ pos[b] >= 4

(* An analysis: at = enumerated attributes that are set, and texts.          *)
Present(a) == [k \in {x \in EnumKeys : a[x] # NA} |-> a[k]]
AnalysesOfOutput(o, wlen) ==
    IF ~IsValidAnalysis(o) THEN <<>>
    ELSE LET a == Attributes(o)
             st == Structure(o, wlen)
             wb == WordBases(o)
             main == [at |-> Present(a), st |-> st, bf |-> Baseform(o, st), out |-> o, wb |-> wb.bases, wi |-> wb.ids]
             st2 == IF Len(st) >= 2 THEN SetAt(st, 2, ChI) ELSE NONE
             name == [at |-> Present([a EXCEPT !.CLASS = "nimi", !.POSSIBLE_GEOGRAPHICAL_NAME = NA]),
                      st |-> st2, bf |-> IF st2 = NONE THEN NONE ELSE Baseform(o, st2),
                      out |-> <<>>, wb |-> NONE, wi |-> NONE]
         IN IF IsOrgName(o, a) THEN <<main, name>> ELSE <<main>>

\* all analyses of a lower case word with the given outputs (at most 99 outputs are considered)
AnalysesOf(outs, wlen) == FlattenSeq([i \in 1..Lesser(Len(outs), 99) |-> AnalysesOfOutput(outs[i], wlen)])

(* What users rely on.  The structure spells the word w (with a lexicon      *)
(* whose entries have the length of the word), attribute values are in the   *)
(* announced sets.                                                           *)
AnalysisLaws(w, a) ==
    /\ \A k \in DOMAIN a.at : a.at[k] \in AttributeValues[k]
    /\ a.st # NONE =>
       LET q == NoEq(a.st) IN
       /\ Len(q) = Len(w)
       /\ \A i \in 1..Len(q) : q[i] = HYPHEN <=> w[i] = HYPHEN
       /\ \A i \in 1..Len(q) : q[i] = COLON => w[i] = COLON
       /\ \A i \in 1..Len(q) : q[i] \in {ChI, ChP, ChJ, ChQ, HYPHEN, COLON}
       /\ ~\E i \in 1..(Len(a.st) - 1) : a.st[i] = EQ /\ a.st[i + 1] = EQ
=============================================================================
