-------------------------------- MODULE Sugg --------------------------------
(* Suggestions for misspelled words: a strategy is a sequence of kinds of    *)
(* edits; the candidates of each kind are tried in order, each against the   *)
(* lexicon alone, until the budget is used up or enough has been found.      *)
EXTENDS Spell

MAX_FOUND == 15        \* candidates kept while searching
MAX_SUGGESTIONS == 5   \* best of them returned

\* pairs <<typed, meant>>: neighbouring keys and common confusions
Near1 == <<
    <<46, 44>>, <<97, 115>>, <<105, 117>>, <<105, 111>>, <<116, 114>>, <<116, 100>>, <<101, 114>>, <<115, 353>>,   \* ., as iu io tr td er ssh
    <<115, 97>>, <<110, 109>>, <<117, 105>>, <<108, 107>>, <<107, 108>>, <<107, 103>>, <<111, 105>>, <<228, 246>>,   \* sa nm ui lk kl kg oi a:o:
    <<109, 110>>, <<114, 101>>, <<114, 116>>, <<118, 98>>, <<112, 98>>, <<112, 111>>, <<121, 116>>, <<104, 106>>,   \* mn re rt vb pb po yt hj
    <<106, 104>>, <<106, 107>>, <<100, 116>>, <<100, 115>>, <<100, 102>>, <<246, 228>>, <<103, 102>>, <<103, 104>>,   \* jh jk dt ds df o:a: gf gh
    <<103, 107>>, <<102, 103>>, <<102, 100>>, <<98, 112>>, <<98, 110>>, <<99, 118>>, <<99, 115>>, <<119, 101>>,   \* gk fg fd bp bn cv cs we
    <<119, 118>>, <<120, 99>>, <<122, 382>>, <<122, 120>>, <<113, 97>>, <<229, 111>>, <<229, 112>>, <<229, 228>>,   \* wv xc zzh zx qa aoo aop aoa:
    <<229, 246>>, <<97, 101>>, <<105, 107>>, <<116, 121>>, <<101, 97>> >>   \* aoo: ae ik ty ea
Near2 == <<
    <<49, 113>>, <<50, 113>>, <<50, 119>>, <<51, 119>>, <<51, 101>>, <<52, 101>>, <<52, 114>>, <<53, 114>>,   \* 1q 2q 2w 3w 3e 4e 4r 5r
    <<53, 116>>, <<54, 116>>, <<54, 121>>, <<55, 121>>, <<55, 117>>, <<56, 117>>, <<56, 105>>, <<57, 105>>,   \* 5t 6t 6y 7y 7u 8u 8i 9i
    <<57, 111>>, <<48, 111>>, <<48, 112>>, <<43, 112>>, <<105, 101>> >>   \* 9o 0o 0p +p ie
Near3 == <<
    <<101, 115>>, <<115, 100>>, <<110, 104>>, <<117, 106>>, <<108, 246>>, <<107, 106>>, <<111, 112>>, <<228, 112>>,   \* es sd nh uj lo: kj op a:p
    <<109, 107>>, <<114, 100>>, <<118, 103>>, <<112, 108>>, <<121, 104>>, <<104, 117>>, <<106, 105>>, <<100, 101>>,   \* mk rd vg pl yh hu ji de
    <<246, 108>>, <<103, 116>>, <<102, 118>>, <<98, 118>>, <<99, 107>>, <<119, 97>>, <<120, 115>>, <<122, 97>>,   \* o:l gt fv bv ck wa xs za
    <<113, 107>>, <<229, 97>>, <<97, 229>>, <<101, 233>>, <<97, 226>>, <<107, 99>>, <<115, 99>>, <<105, 106>>,   \* qk aoa aao ee' aa^ kc sc ij
    <<120, 122>> >>   \* xz
Near4 == <<
    <<113, 119>>, <<113, 115>>, <<119, 113>>, <<119, 115>>, <<119, 100>>, <<101, 100>>, <<101, 102>>, <<114, 102>>,   \* qw qs wq ws wd ed ef rf
    <<114, 103>>, <<116, 102>>, <<116, 103>>, <<116, 104>>, <<121, 103>>, <<121, 106>>, <<117, 104>>, <<117, 107>>,   \* rg tf tg th yg yj uh uk
    <<105, 108>>, <<111, 107>>, <<111, 108>>, <<112, 246>>, <<112, 228>>, <<115, 101>>, <<115, 120>>, <<100, 114>>,   \* il ok ol po: pa: se sx dr
    <<98, 103>>, <<102, 101>>, <<102, 114>>, <<102, 116>>, <<102, 99>>, <<103, 121>>, <<103, 98>>, <<103, 118>>,   \* bg fe fr ft fc gy gb gv
    <<104, 121>>, <<104, 110>>, <<104, 98>>, <<104, 103>>, <<106, 117>>, <<106, 109>>, <<106, 110>>, <<107, 105>>,   \* hy hn hb hg ju jm jn ki
    <<107, 111>>, <<107, 109>>, <<108, 111>>, <<108, 112>>, <<246, 112>>, <<246, 229>>, <<228, 229>>, <<122, 115>>,   \* ko km lo lp o:p o:ao a:ao zs
    <<120, 100>>, <<99, 100>>, <<99, 102>>, <<99, 120>>, <<118, 102>>, <<98, 104>>, <<110, 106>>, <<110, 98>>,   \* xd cd cf cx vf bh nj nb
    <<109, 106>>, <<101, 119>>, <<112, 229>>, <<97, 113>>, <<115, 119>>, <<115, 122>>, <<100, 119>>, <<100, 99>>,   \* mj ew pao aq sw sz dw dc
    <<100, 120>>, <<118, 99>>, <<97, 119>>, <<97, 122>>, <<115, 113>> >>   \* dx vc aw az sq
Near5 == <<
    <<97, 111>>, <<111, 97>>, <<111, 117>>, <<116, 108>>, <<115, 114>>, <<97, 105>>, <<101, 228>>, <<228, 101>>,   \* ao oa ou tl sr ai ea: a:e
    <<117, 118>>, <<118, 117>>, <<111, 100>>, <<100, 111>>, <<107, 113>>, <<112, 118>>, <<118, 112>>, <<113, 101>>,   \* uv vu od do kq pv vp qe
    <<101, 113>>, <<97, 100>>, <<100, 97>>, <<114, 115>>, <<101, 116>>, <<116, 101>>, <<114, 121>>, <<121, 114>>,   \* eq ad da rs et te ry yr
    <<116, 117>>, <<117, 116>>, <<121, 105>>, <<105, 121>>, <<117, 111>>, <<105, 112>>, <<112, 105>>, <<111, 229>>,   \* tu ut yi iy uo ip pi oao
    <<104, 118>>, <<118, 104>>, <<104, 109>>, <<109, 104>> >>   \* hv vh hm mh
OcrPairs == <<
    <<48, 111>>, <<108, 105>>, <<105, 108>>, <<117, 111>>, <<111, 117>>, <<97, 228>>, <<228, 97>>, <<111, 246>>,   \* 0o li il uo ou aa: a:a oo:
    <<246, 111>>, <<115, 353>>, <<353, 115>>, <<122, 382>>, <<382, 122>>, <<101, 233>>, <<233, 101>>, <<97, 226>>,   \* o:o ssh shs zzh zhz ee' e'e aa^
    <<226, 97>>, <<112, 98>>, <<98, 112>>, <<101, 102>>, <<102, 101>>, <<113, 111>>, <<111, 113>>, <<110, 109>>,   \* a^a pb bp ef fe qo oq nm
    <<109, 110>>, <<117, 118>>, <<118, 117>>, <<111, 99>>, <<99, 111>>, <<98, 104>>, <<104, 98>>, <<95, 97>>,   \* mn uv vu oc co bh hb _a
    <<95, 98>>, <<95, 99>>, <<95, 100>>, <<95, 101>>, <<95, 102>>, <<95, 103>>, <<95, 104>>, <<95, 105>>,   \* _b _c _d _e _f _g _h _i
    <<95, 106>>, <<95, 107>>, <<95, 108>>, <<95, 109>>, <<95, 110>>, <<95, 111>>, <<95, 112>>, <<95, 113>>,   \* _j _k _l _m _n _o _p _q
    <<95, 114>>, <<95, 115>>, <<95, 116>>, <<95, 117>>, <<95, 118>>, <<95, 119>>, <<95, 120>>, <<95, 121>>,   \* _r _s _t _u _v _w _x _y
    <<95, 122>>, <<95, 228>>, <<95, 246>> >>   \* _z _a: _o:
InsertFirst == <<97, 105, 116, 101, 115, 110>>              \* a i t e s n
InsertRest == <<117, 108, 107, 111, 228, 109, 114, 118, 112, 121, 104, 106, 100, 246, 103, 102, 98, 99, 119, 58, 120, 122, 113, 229, 39, 46>>

BackV == <<97, 111, 117, 65, 79, 85>>       \* a o u A O U
FrontV == <<228, 246, 121, 196, 214, 89>>   \* their front counterparts
Harmony == [c \in {BackV[i] : i \in 1..6} \cup {FrontV[i] : i \in 1..6} |->
              IF \E i \in 1..6 : BackV[i] = c THEN FrontV[CHOOSE i \in 1..6 : BackV[i] = c]
              ELSE BackV[CHOOSE i \in 1..6 : FrontV[i] = c]]
HarmonyDom == DOMAIN Harmony

----------------------------------------------------------------------------
(* Quality of a word: the smaller the better.                                *)
CaseFactor(a) ==
    LET c == IF "SIJAMUOTO" \in DOMAIN a.at THEN a.at["SIJAMUOTO"] ELSE "" IN
    CASE c = "nimento" -> 2 [] c = "omanto" -> 3 [] c = "osanto" -> 5
      [] c \in {"sisaolento", "sisatulento"} -> 8
      [] c \in {"sisaeronto", "ulkoolento"} -> 12
      [] c \in {"ulkotulento", "olento", "tulento", "keinonto"} -> 20
      [] c = "ulkoeronto" -> 30
      [] c \in {"vajanto", "seuranto"} -> 60
      [] OTHER -> 4
Nominals == {"nimisana", "laatusana", "nimisana_laatusana", "asemosana", "etunimi", "sukunimi", "paikannimi", "nimi"}
ClassFactor(a) == IF "CLASS" \in DOMAIN a.at /\ a.at["CLASS"] \in Nominals THEN CaseFactor(a) ELSE 4
\* each part of a compound makes it eight times worse
PartsFactor(st) == LET n == Len(SelectSeq(st, LAMBDA c : c = EQ)) IN IF n = 0 THEN 1 ELSE 8 ^ (Lesser(n, 5) - 1)
VerdictFactor(r) == r          \* OK 1, CAP_FIRST 2, CAP_ERROR 3

Score(w, T) ==
    LET as == Ana(T, w) IN
    IF as = <<>> THEN [r |-> FAILED, p |-> 0] ELSE
    LET rs == Eager([i \in 1..Len(as) |-> MatchCase(w, as[i].st)])
        best == Best({rs[i] : i \in 1..Len(as)})
        ps == {ClassFactor(as[i]) * PartsFactor(as[i].st) * VerdictFactor(best) : i \in {j \in 1..Len(as) : rs[j] = best}}
    IN [r |-> best, p |-> CHOOSE x \in ps : \A y \in ps : x <= y]

----------------------------------------------------------------------------
(* Search state: candidates looked up so far and what was found.             *)
Start(max) == [cost |-> 0, max |-> max, found |-> <<>>]
Enough(s) == \/ Len(s.found) = MAX_FOUND
             \/ s.cost >= s.max /\ (s.found # <<>> \/ s.cost >= 2 * s.max)
Charge(s, n) == [s EXCEPT !.cost = @ + n]
\* earlier findings are preferred
Found(s, w, p) == [s EXCEPT !.found = Append(@, [w |-> w, p |-> p * (Len(@) + 5)])]

UpFirst(w) == SetAt(w, 1, ToUpper(w[1]))
Recase(w, st) == LET q == NoEq(st) IN
    Eager([i \in 1..Len(w) |-> IF i > Len(q) THEN w[i] ELSE IF q[i] \in {ChI, ChJ} THEN ToUpper(w[i])
                               ELSE IF q[i] \in {ChP, ChQ} THEN ToLower(w[i]) ELSE w[i]])

TryWord(s, w, T) ==
    LET c == Score(w, T) IN
    CASE c.r = FAILED -> Charge(s, 1)
      [] c.r = OK -> Found(Charge(s, 1), w, c.p)
      [] c.r = CAP_FIRST -> Found(Charge(s, 1), UpFirst(w), c.p)
      [] OTHER -> Found(Charge(s, 2), Recase(w, Ana(T, w)[1].st), c.p)

\* one of the words of a pair
Part(w, T) ==
    LET up == IsUpper(w[1])
        x == IF up THEN SetAt(w, 1, ToLower(w[1])) ELSE w
        c == Score(x, T)
    IN [ok |-> c.r \in {OK, CAP_FIRST}, p |-> c.p, w |-> IF up \/ c.r = CAP_FIRST THEN UpFirst(x) ELSE x]
TrySplit(s, w, k, T) ==         \* k characters in the first word
    LET a == Upto(w, k)
        strip == w[k + 1] = HYPHEN
        b == From(w, IF strip THEN k + 2 ELSE k + 1)
        p0 == Part(a, T)
        dotted == ~p0.ok /\ a[k] = DOT
        p1 == IF dotted THEN Part(Upto(a, k - 1), T) ELSE p0
        c1 == IF dotted THEN 2 ELSE 1
        p2 == Part(b, T)
        pr == (p1.p + p2.p) * (IF strip THEN 6 ELSE 1)
    IN IF ~p1.ok THEN Charge(s, c1)
       ELSE IF ~p2.ok THEN Charge(s, c1 + 1)
       ELSE Found(Charge(s, c1 + 1), p1.w \o (IF dotted THEN <<DOT>> ELSE <<>>) \o <<32>> \o p2.w, pr)

----------------------------------------------------------------------------
(* Candidates of each kind of edit, in order.                                *)
Concat(f, n) == FlattenSeq(Eager([i \in 1..n |-> f[i]]))
PosOf(w, c) == SelectSeq(Eager([i \in 1..Len(w) |-> i]), LAMBDA i : w[i] = c)
Ins(w, k, c) == Upto(w, k) \o <<c>> \o From(w, k + 1)        \* c after the first k characters
Del(w, k) == Upto(w, k - 1) \o From(w, k + 1)

VowelCands(w) ==
    LET vs == SelectSeq(Eager([i \in 1..Len(w) |-> i]), LAMBDA i : w[i] \in HarmonyDom)
        n == Len(vs)
        bit(p, j) == (p \div 2 ^ (j - 1)) % 2 = 1
        nth == [i \in {vs[j] : j \in 1..n} |-> CHOOSE j \in 1..n : vs[j] = i]
        flip(p) == Eager([i \in 1..Len(w) |-> IF w[i] \in HarmonyDom /\ bit(p, nth[i]) THEN Harmony[w[i]] ELSE w[i]])
    IN IF n = 0 \/ n > 7 THEN <<>> ELSE Eager([p \in 1..(2 ^ n - 1) |-> flip(p)])

PairCands(w, pair) ==
    LET put(ps, c) == Eager([k \in 1..Len(ps) |-> SetAt(w, ps[k], c)])
        u == ToUpper(pair[1])
    IN put(PosOf(w, pair[1]), pair[2]) \o (IF u = pair[1] THEN <<>> ELSE put(PosOf(w, u), ToUpper(pair[2])))
ReplaceCands(w, tab) == LET f == Eager([k \in 1..Len(tab) |-> PairCands(w, tab[k])]) IN Concat(f, Len(tab))

DeleteCands(w) ==
    LET ps == SelectSeq(Eager([i \in 1..Len(w) |-> i]), LAMBDA i : i = 1 \/ ToLower(w[i]) # ToLower(w[i - 1]))
    IN Eager([k \in 1..Len(ps) |-> Del(w, ps[k])])

HyphenCands(w) ==
    LET n == Len(w)
        near(j) == \E d \in {-1, 0, 1, 2} : w[j + d] = HYPHEN       \* hyphen after j characters
        ps == SelectSeq(Eager([i \in 1..n |-> i]), LAMBDA j : j >= 2 /\ j <= n - 2 /\ ~near(j))
    IN Eager([k \in 1..Len(ps) |-> Ins(w, ps[k], HYPHEN)])
\* doubled characters, except where there already are two
DoubleCands(w) ==
    LET n == Len(w)
        D[j \in Nat] == IF j > n THEN <<>>
                        ELSE IF j < n /\ w[j] = w[j + 1] THEN D[j + 2]
                        ELSE IF w[j] \in {HYPHEN, APOS} THEN D[j + 1]
                        ELSE <<Ins(w, j, w[j])>> \o D[j + 1]
    IN D[1]

InsertCands(w, chars) ==
    LET n == Len(w)
        one(c) == LET ps == SelectSeq(Eager([i \in 1..n |-> i]), LAMBDA j : c # ToLower(w[j]) /\ (j = 1 \/ c # ToLower(w[j - 1])))
                  IN Eager([k \in 1..Len(ps) |-> Ins(w, ps[k] - 1, c)]) \o (IF c = w[n] THEN <<>> ELSE <<Append(w, c)>>)
        f == Eager([k \in 1..Len(chars) |-> one(chars[k])])
    IN Concat(f, Len(chars))

SwapCands(w) ==
    LET n == Len(w)
        reach == IF n <= 8 THEN 10 ELSE 50 \div n
        l == LowerStr(w)
        useful(i, j) == l[i] # l[j] /\ ~(l[i] \in HarmonyDom /\ Harmony[l[i]] = l[j])
        row(i) == LET js == SelectSeq(Eager([k \in 1..n |-> k]), LAMBDA j : j > i /\ j - i <= reach /\ useful(i, j))
                  IN Eager([k \in 1..Len(js) |-> [w EXCEPT ![i] = w[js[k]], ![js[k]] = w[i]]])
        f == Eager([i \in 1..n |-> row(i)])
    IN Concat(f, n)

\* a doubled character replaced by another doubled one
ReplaceTwoCands(w, tab) ==
    LET l == LowerStr(w)
        n == Len(w)
        at(i) == LET t == SelectSeq(tab, LAMBDA p : p[1] = l[i])
                 IN Eager([k \in 1..Len(t) |-> [l EXCEPT ![i] = t[k][2], ![i + 1] = t[k][2]]])
        R[i \in Nat] == IF i >= n THEN <<>> ELSE IF l[i] # l[i + 1] THEN R[i + 1] ELSE at(i) \o R[i + 2]
    IN R[1]

\* a repeated pair of characters written once
DeleteTwoCands(w) ==
    LET n == Len(w)
        del(i) == Upto(w, i - 1) \o From(w, i + 2)
        ps == SelectSeq(Eager([i \in 1..n |-> i]),
                        LAMBDA i : i + 3 <= n /\ w[i] = w[i + 2] /\ w[i + 1] = w[i + 3])
        new(k) == \A m \in 1..(k - 1) : del(ps[m]) # del(ps[k])
        ks == SelectSeq(Eager([k \in 1..Len(ps) |-> k]), new)
    IN IF n < 6 THEN <<>> ELSE Eager([k \in 1..Len(ks) |-> del(ps[ks[k]])])

\* two replacements, the second at or after the place of the first
TwiceCands(w, tab) ==
    LET put(x, i, c) == SetAt(x, i, c)
        second(x, from) == LET f == Eager([k \in 1..Len(tab) |->
                                LET ps == SelectSeq(PosOf(x, tab[k][1]), LAMBDA i : i >= from)
                                IN Eager([m \in 1..Len(ps) |-> put(x, ps[m], tab[k][2])])])
                           IN Concat(f, Len(tab))
        first(k) == LET ps == PosOf(w, tab[k][1])
                        f == Eager([m \in 1..Len(ps) |-> second(put(w, ps[m], tab[k][2]), ps[m])])
                    IN Concat(f, Len(ps))
        g == Eager([k \in 1..Len(tab) |-> first(k)])
    IN Concat(g, Len(tab))

SplitPoints(w) ==
    LET n == Len(w)
        ok(k) == /\ k >= 2 /\ k <= n - 2
                 /\ w[k - 1] # HYPHEN /\ w[k] # HYPHEN /\ w[k + 2] # HYPHEN
    IN SelectSeq(Eager([i \in 1..n |-> n - i]), ok)

----------------------------------------------------------------------------
TypingPrimary == <<"asis", "soft">>
TypingOthers == <<"vowels", "near1", "delete", "hyphen", "double", "split", "two1", "near2", "insert1", "swap", "near3",
                  "insert2", "near4", "two2", "two3", "two4", "deltwo", "near5">>
OcrPrimary == <<"asis">>
OcrOthers == <<"ocr", "ocr2">>

CandsOf(kind, w) ==
    CASE kind = "asis" -> <<w>>
      [] kind = "soft" -> IF HasChar(w, SOFT) THEN <<Without(w, SOFT)>> ELSE <<>>
      [] kind = "vowels" -> VowelCands(w)
      [] kind = "near1" -> ReplaceCands(w, Near1)
      [] kind = "near2" -> ReplaceCands(w, Near2)
      [] kind = "near3" -> ReplaceCands(w, Near3)
      [] kind = "near4" -> ReplaceCands(w, Near4)
      [] kind = "near5" -> ReplaceCands(w, Near5)
      [] kind = "delete" -> DeleteCands(w)
      [] kind = "hyphen" -> HyphenCands(w)
      [] kind = "double" -> DoubleCands(w)
      [] kind = "two1" -> ReplaceTwoCands(w, Near1)
      [] kind = "two2" -> ReplaceTwoCands(w, Near2)
      [] kind = "two3" -> ReplaceTwoCands(w, Near3)
      [] kind = "two4" -> ReplaceTwoCands(w, Near4)
      [] kind = "insert1" -> InsertCands(w, InsertFirst)
      [] kind = "insert2" -> InsertCands(w, InsertRest)
      [] kind = "swap" -> SwapCands(w)
      [] kind = "deltwo" -> DeleteTwoCands(w)
      [] kind = "ocr" -> ReplaceCands(w, OcrPairs)
      [] kind = "ocr2" -> TwiceCands(w, OcrPairs)

Run(s0, kind, w, T) ==
    IF Enough(s0) THEN s0
    ELSE IF kind = "split" THEN FoldLeft(LAMBDA s, k : IF Enough(s) THEN s ELSE TrySplit(s, w, k, T), s0, SplitPoints(w))
    ELSE FoldLeft(LAMBDA s, c : IF Enough(s) THEN s ELSE TryWord(s, c, T), s0, CandsOf(kind, w))
RunAll(s0, kinds, w, T) == FoldLeft(LAMBDA s, k : Run(s, k, w, T), s0, kinds)

Search(w, ocr, T) ==
    LET first == RunAll(Start(IF ocr THEN 2000 ELSE 800), IF ocr THEN OcrPrimary ELSE TypingPrimary, w, T)
    IN IF first.found # <<>> THEN first ELSE RunAll(first, IF ocr THEN OcrOthers ELSE TypingOthers, w, T)

\* stable sort, best first
Ranked(found) ==
    LET n == Len(found)
        idx == SortSeq(Eager([i \in 1..n |-> i]), LAMBDA a, b : found[a].p < found[b].p \/ (found[a].p = found[b].p /\ a < b))
    IN Eager([i \in 1..Lesser(n, MAX_SUGGESTIONS) |-> found[idx[i]].w])

----------------------------------------------------------------------------
(* Typographic apostrophes and hyphens of the input are used in the parts of *)
(* the suggestion before and after the difference.                           *)
Typographic == [c \in {RSQUO, UHYPH, NBHYPH} |-> IF c = RSQUO THEN APOS ELSE HYPHEN]
Alike(a, b) == a = b \/ (a \in DOMAIN Typographic /\ Typographic[a] = b)
Reformat(orig, w) ==
    LET n == Len(orig)  m == Len(w)  l == Lesser(n, m)
        i == First(1, l, l + 1, LAMBDA k : ~Alike(orig[k], w[k]))            \* first difference
        rest == l - (i - 1)
        j == First(1, rest, rest + 1, LAMBDA k : ~Alike(orig[n - k + 1], w[m - k + 1]))   \* from the end
        lead == Eager([k \in 1..m |-> IF k < i THEN orig[k] ELSE w[k]])
    IN Eager([k \in 1..m |-> IF m - k + 1 < j THEN orig[n - (m - k)] ELSE lead[k]])

\* the word that is looked at, for suggestions: without its dot if that is ignored
SuggDotted(word, o) == LET nw == Normalise(word) IN o.ignoreDot /\ nw[Len(nw)] = DOT
SuggWord(word, o) == LET nw == Normalise(word) IN IF SuggDotted(word, o) THEN Upto(nw, Len(nw) - 1) ELSE nw
NoSuggestions(word, o) == LET nw == Normalise(word) IN
    Len(word) <= 1 \/ Len(word) > 255 \/ Len(nw) <= 1 \/ (o.ignoreDot /\ Len(nw) = 2)
\* a correction as it is shown to the user
Presented(word, o, c) ==
    LET dotted == SuggDotted(word, o)
        w == SuggWord(word, o)
        caps == CaseType(w)
        up(x) == MapSeq(x, ToUpper)
        cased(x) == IF (caps = "first" \/ (caps = "complex" /\ IsUpper(w[1]))) /\ CaseType(x) = "lower" THEN UpFirst(x)
                    ELSE IF caps = "upper" /\ o.allUpper THEN up(x) ELSE x
        dot(x) == IF dotted /\ x[Len(x)] # DOT THEN Append(x, DOT) ELSE x
    IN Reformat(word, cased(dot(c)))
Suggestions(word, o, T) ==
    IF NoSuggestions(word, o) THEN <<>>
    ELSE LET best == Ranked(Search(SuggWord(word, o), o.ocr, T).found)
         IN Eager([i \in 1..Len(best) |-> Presented(word, o, best[i])])
=============================================================================
