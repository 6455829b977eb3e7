------------------------------- MODULE Spell --------------------------------
(* The verdict of the spell checker.                                         *)
EXTENDS Hyph

\* results of checking a word against the lexicon, best first
OK == 1  CAP_FIRST == 2  CAP_ERROR == 3  FAILED == 0
Better(a, b) == a # FAILED /\ (b = FAILED \/ a < b)
Best(S) == IF S = {} THEN FAILED ELSE CHOOSE x \in S : \A y \in S : ~Better(y, x)

CaseType(w) ==
    LET up(i) == IsUpper(w[i])  lo(i) == IsLower(w[i])  n == Len(w) IN
    IF \A i \in 1..n : ~up(i) /\ ~lo(i) THEN "none"
    ELSE IF \A i \in 1..n : ~lo(i) THEN "upper"
    ELSE IF \E i \in 2..n : up(i) THEN "complex"
    ELSE IF up(1) THEN "first" ELSE "lower"

(* Letter case of the word against the structure of an analysis.             *)
MatchCase(w, st) ==
    LET q == NoEq(st)
        n == Lesser(Len(w), Len(q))
        lowHere(i) == IsLower(w[i]) /\ q[i] \in {ChI, ChJ}
        upHere(i) == IsUpper(w[i]) /\ q[i] \in {ChP, ChQ}
    IN IF (\E i \in 1..n : upHere(i)) \/ (\E i \in 2..n : lowHere(i)) THEN CAP_ERROR
       ELSE IF n >= 1 /\ lowHere(1) THEN CAP_FIRST
       ELSE OK

\* T: the analyses of each lower case word of the lexicon
SpellByAnalysis(w, T) ==
    LET as == Ana(T, w) IN Best({MatchCase(w, as[i].st) : i \in 1..Len(as)})

\* number of characters of the structure before character k, is there a boundary there?
BoundaryBefore(st, k) ==        \* TRUE iff '=' stands after the first k characters
    LET J[i \in Nat, c \in Nat] == IF i > Len(st) THEN FALSE
                                   ELSE IF c = k THEN st[i] = EQ
                                   ELSE J[i + 1, IF st[i] = EQ THEN c ELSE c + 1]
    IN J[1, 0]
LongEnough(st, k) == Len(NoEq(st)) >= k

TweakHyph == [ugly |-> TRUE, unknown |-> TRUE, min |-> 3, ignoreDot |-> TRUE]

RECURSIVE SpellNoShy(_, _, _)
\* extra: accept extra hyphens
SpellNoShy(w, extra, T) ==
    LET n == Len(w)
        result == SpellByAnalysis(w, T)
        h == IF result # OK /\ n > 3 THEN First(2, n - 1, 0, LAMBDA i : w[i] = HYPHEN) ELSE 0
        lead == h - 1                                  \* characters before the hyphen
        joined == Upto(w, h - 1) \o From(w, h + 1)     \* the word without this hyphen
        viaExtra == IF extra /\ lead > 1 /\ joined[h] # HYPHEN THEN SpellNoShy(joined, extra, T) ELSE FAILED
        \* "pop-opisto": vowel and consonant before the hyphen are repeated after it
        repeated == /\ lead >= 2 /\ n - lead >= 3
                    /\ IsV(ToLower(w[lead - 1])) /\ IsC(ToLower(w[lead]))
                    /\ ToLower(w[h + 1]) = ToLower(w[lead - 1]) /\ ToLower(w[h + 2]) = ToLower(w[lead])
        viaRepeat == IF repeated THEN SpellByAnalysis(joined, T) ELSE FAILED
        \* "ja-sana": any word followed by a word that may follow any word
        l == First(0, n - 3, 0, LAMBDA d : w[n - 1 - d] = HYPHEN)
        last == n - 1 - l
        trailing == Ana(T, From(w, last + 1))
        freeTail == \E i \in 1..Len(trailing) : "MALAGA_VAPAA_JALKIOSA" \in DOMAIN trailing[i].at
        viaTail == IF freeTail THEN SpellNoShy(Upto(w, last - 1), extra, T) ELSE FAILED
        \* "syys-ilta": the hyphen tells which of the possible compounds is meant
        as == Ana(T, joined)
        fit == {i \in 1..Len(as) : LongEnough(as[i].st, lead)}
        with == Best({MatchCase(joined, as[i].st) : i \in {j \in fit : BoundaryBefore(as[j].st, lead)}})
        without == Best({MatchCase(joined, as[i].st) : i \in {j \in fit : ~BoundaryBefore(as[j].st, lead)}})
    IN IF h = 0 THEN result
       ELSE IF viaExtra = OK THEN OK
       ELSE IF Better(viaRepeat, result) THEN viaRepeat
       ELSE IF viaTail # FAILED THEN viaTail
       ELSE IF with # FAILED /\ without # FAILED /\ Better(with, result) THEN with
       ELSE result

\* with soft hyphens, which may stand where some analysis allows a break
SpellTweaks(w, extra, T) ==
    IF ~HasChar(w, SOFT) THEN SpellNoShy(w, extra, T)
    ELSE LET n == Len(w)
             bare == Without(w, SOFT)
             at == {i \in 1..n : w[i] = SOFT}
             wrong == \E i \in at : i = n \/ i + 1 \in at \/ Len(Without(Upto(w, i), SOFT)) = 0
             res == SpellNoShy(bare, extra, T)
             br == PossibleBreaks(bare, TweakHyph, T)
             bad == \E i \in at : br[Len(Without(Upto(w, i), SOFT)) + 1] # HYPHEN
         IN IF wrong THEN FAILED ELSE IF res = FAILED THEN FAILED ELSE IF bad THEN FAILED ELSE res

\* L(w): the verdict of the lexicon on w;  o: options
HyphenAware(w, o, L(_)) ==
    LET r == L(w)  n == Len(w) IN
    IF r # FAILED \/ ~o.missingHyphens \/ n < 2 \/ (w[1] = HYPHEN /\ w[n] = HYPHEN) THEN r
    ELSE L((IF w[1] = HYPHEN THEN <<>> ELSE <<HYPHEN>>) \o w \o (IF w[n] = HYPHEN THEN <<>> ELSE <<HYPHEN>>))

SpellVerdict(word, o, L(_)) ==
    LET w == Normalise(word)
        n == Len(w)
        caps0 == CaseType(w)
        caps == IF caps0 = "upper" /\ ~o.allUpper THEN "complex" ELSE caps0
        low == LowerStr(w)
        dotted == o.ignoreDot /\ w[n] = DOT
        \* the word without and with its dot
        exact == SetAt(w, 1, ToLower(w[1]))
        capsOk(r) == CASE caps = "lower" -> r = OK
                       [] caps = "first" -> (r = OK /\ o.firstUpper) \/ r = CAP_FIRST
                       [] caps = "upper" -> r # FAILED
                       [] OTHER -> r = OK \/ (r = CAP_FIRST /\ o.firstUpper /\ IsUpper(w[1]))
        try(x) == capsOk(HyphenAware(x, o, L))
        form == IF caps \in {"complex", "none"} THEN exact ELSE low
    IN IF word = <<>> THEN TRUE
       ELSE IF Len(word) > 255 THEN FALSE
       ELSE IF o.ignoreNumbers /\ \E i \in 1..n : IsDigitCh(w[i]) THEN TRUE
       ELSE IF o.ignoreUpper /\ caps0 = "upper" THEN TRUE
       ELSE IF o.ignoreNonwords /\ IsNonword(w) THEN TRUE
       ELSE try(form) \/ (dotted /\ try(Upto(form, n - 1)))
=============================================================================
