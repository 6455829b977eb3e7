------------------------------- MODULE Vocab --------------------------------
(* From a vocabulary to a dictionary (voikko-fi): which entries belong to it *)
(* under the options of the build, and what the dictionary must say of the   *)
(* forms of an entry: its class and base form, structure, case and number or *)
(* mood, tense and person; and of forms that are wrong.                      *)
EXTENDS Infl

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
\* flags of all groups
Flags(e) == {e.compounding[i] : i \in 1..Len(e.compounding)} \cup {e.inflection[i] : i \in 1..Len(e.inflection)} \cup {e.derivation[i] : i \in 1..Len(e.derivation)}
            \cup {e.application[i] : i \in 1..Len(e.application)} \cup {e.frequency[i] : i \in 1..Len(e.frequency)} \cup {e.grammar[i] : i \in 1..Len(e.grammar)}
            \cup {e.style[i] : i \in 1..Len(e.style)}
Frequency(e) == IF e.freq = 0 THEN 7 ELSE e.freq
Uninflected == {"interjection", "prefix", "abbreviation", "conjunction", "adverb"}
Included(e, o) ==
    /\ "not_voikko" \notin Flags(e)
    /\ \A i \in 1..Len(e.style) : e.style[i] = "foreignloan" \/ InSeq(e.style[i], o.style)
    /\ e.usage = <<>> \/ \E i \in 1..Len(e.usage) : InSeq(e.usage[i], o.usage)
    /\ Frequency(e) <= o.freq
    /\ ~(Frequency(e) = o.freq /\ "confusing" \in Flags(e))
    /\ e.c # "poikkeava"
    /\ e.c # "" \/ e.wc[1] \in Uninflected

\* the class of the word: the first that it has
Classes == <<<<"pnoun_place", "paikannimi">>, <<"pnoun_firstname", "etunimi">>, <<"pnoun_lastname", "sukunimi">>, <<"pnoun_misc", "nimi">>, <<"verb", "teonsana">>,
             <<"adjective", "laatusana">>, <<"noun", "nimisana">>, <<"interjection", "huudahdussana">>, <<"prefix", "etuliite">>, <<"abbreviation", "lyhenne">>,
             <<"adverb", "seikkasana">>, <<"conjunction", "sidesana">>>>
ClassOf(e) == LET I == {i \in 1..Len(Classes) : InSeq(Classes[i][1], e.wc)}
                  c == Classes[CHOOSE i \in I : \A j \in I : i <= j][2]
              IN IF c = "laatusana" /\ InSeq("noun", e.wc) THEN "nimisana_laatusana" ELSE c
IsName(e) == ClassOf(e) \in {"paikannimi", "etunimi", "sukunimi", "nimi"}
IsVerb(e) == ClassOf(e) = "teonsana"

\* what the analysis of a form says
NoAttr == [x \in {} |-> ""]
Cases == [nominatiivi |-> "nimento", genetiivi |-> "omanto", partitiivi |-> "osanto", translatiivi |-> "tulento", essiivi |-> "olento", inessiivi |-> "sisaolento",
          elatiivi |-> "sisaeronto", illatiivi |-> "sisatulento", adessiivi |-> "ulkoolento", ablatiivi |-> "ulkoeronto", allatiivi |-> "ulkotulento", abessiivi |-> "vajanto"]
Plurals == [nominatiivi_mon |-> "nimento", genetiivi_mon |-> "omanto", partitiivi_mon |-> "osanto", translatiivi_mon |-> "tulento", essiivi_mon |-> "olento",
            inessiivi_mon |-> "sisaolento", elatiivi_mon |-> "sisaeronto", illatiivi_mon |-> "sisatulento", adessiivi_mon |-> "ulkoolento", ablatiivi_mon |-> "ulkoeronto",
            allatiivi_mon |-> "ulkotulento", abessiivi_mon |-> "vajanto", instruktiivi_mon |-> "keinonto"]
Verbal == [infinitiivi_1 |-> [MOOD |-> "A-infinitive"],
           preesens_yks_1 |-> [MOOD |-> "indicative", TENSE |-> "present_simple", PERSON |-> "1", NUMBER |-> "singular"],
           imperfekti_yks_3 |-> [MOOD |-> "indicative", TENSE |-> "past_imperfective", PERSON |-> "3", NUMBER |-> "singular"],
           kondit_yks_3 |-> [MOOD |-> "conditional", TENSE |-> "present_simple", PERSON |-> "3", NUMBER |-> "singular"],
           imperatiivi_yks_3 |-> [MOOD |-> "imperative", TENSE |-> "present_simple", PERSON |-> "3", NUMBER |-> "singular"],
           imperfekti_pass |-> [MOOD |-> "indicative", TENSE |-> "past_imperfective", PERSON |-> "4"],
           partisiippi_2 |-> [PARTICIPLE |-> "past_active", CLASS |-> "laatusana"]]
Following(e) == IF "require_following_a" \in Flags(e) THEN [REQUIRE_FOLLOWING_VERB |-> "A-infinitive"]
                ELSE IF "require_following_ma" \in Flags(e) THEN [REQUIRE_FOLLOWING_VERB |-> "MA-infinitive"] ELSE NoAttr
\* forms of an entry that the check covers: the names with a known meaning
AttributesOf(e, name) ==
    IF IsVerb(e) THEN (IF name \in DOMAIN Verbal THEN Verbal[name] @@ [CLASS |-> "teonsana"] @@ (IF name = "partisiippi_2" THEN NoAttr ELSE Following(e)) ELSE NoAttr)
    ELSE IF name \in DOMAIN Cases THEN [CLASS |-> ClassOf(e), SIJAMUOTO |-> Cases[name], NUMBER |-> "singular"]
    ELSE IF name \in DOMAIN Plurals THEN [CLASS |-> ClassOf(e), SIJAMUOTO |-> Plurals[name], NUMBER |-> "plural"]
    ELSE NoAttr

\* structure of a form of the word with marks f: = begins each part; letters are i (upper case) or p; those of abbreviations j or q
RECURSIVE StructFrom(_, _, _)
StructFrom(f, up, low) ==
    IF f = <<>> THEN <<>>
    ELSE (CASE f[1] = HYPHEN -> <<HYPHEN, EQUALS>> [] f[1] = EQUALS -> <<EQUALS>> [] f[1] = BAR -> <<>>
            [] IsUpper(f[1]) -> <<up>> [] OTHER -> <<low>>) \o StructFrom(Tail(f), up, low)
StructureOf(e, f, n) ==       \* of a form with n characters
    LET abbr == ClassOf(e) = "lyhenne"
        up == IF abbr THEN 106 ELSE 105
        low == IF abbr THEN 113 ELSE 112
        s == <<EQUALS>> \o StructFrom(f, up, low)
        letters(x) == Len(SelectSeq(x, LAMBDA c : c # EQUALS))
        RECURSIVE fit(_)
        fit(x) == IF letters(x) > n THEN fit(Upto(x, Len(x) - 1)) ELSE IF letters(x) < n THEN fit(x \o <<low>>) ELSE x
    IN fit(s)

----------------------------------------------------------------------------
(* Questions to the dictionary, with what the answer must be.                *)
Case(e, w, must, at, bf, st) == [id |-> e.id, w |-> w, must |-> must, at |-> at, bf |-> bf, st |-> st, id2 |-> ""]
NoText == <<0>>
SwapVowel(c) == CASE c = 97 -> aUml [] c = 111 -> oUml [] c = 117 -> 121 [] c = aUml -> 97 [] c = oUml -> 111 [] c = 121 -> 117 [] OTHER -> c
CommonPrefix(a, b) == LET I == {i \in 0..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : \A j \in 1..i : a[j] = b[j]} IN CHOOSE i \in I : \A j \in I : j <= i
\* the form with its ending in the other harmony
WrongHarmony(base, w) == LET k == CommonPrefix(base, w) IN Upto(w, k) \o MapSeq(From(w, k + 1), SwapVowel)

\* forms of the tables that the dictionary need not know: it does not take every form that the tables give for some classes
EndsIn(w, s) == Len(w) >= Len(s) /\ From(w, Len(w) - Len(s) + 1) = s
Unsettled(e, x) ==
    \/ e.c = "askel" /\ x.name = "partitiivi" /\ (EndsIn(x.w, <<101, 116, 116, 97>>) \/ EndsIn(x.w, <<101, 116, 116, aUml>>))
    \/ e.c = "edam" /\ x.name = "genetiivi_mon" /\ EndsIn(x.w, <<105, 116, 116, 101, 110>>)
    \/ e.c = "kaikaa" /\ x.name = "infinitiivi_1"
    \/ x.name = "verbi_AjAA"
FormsOf(e, f, tables) == Inflect(IF IsVerb(e) THEN tables.verb ELSE tables.subst, f, e.c, e.g, e.vow)
InflectedCases(e, f, tables, in) ==
    LET fs == FormsOf(e, f, tables)
        all == {fs[i].w : i \in 1..Len(fs)}
        main == SelectSeq(fs, LAMBDA x : x.prio = 1 /\ ~Unsettled(e, x))
        base == Plain(f)
        single == "ei_yks" \in Flags(e)
        one(x) == LET at == AttributesOf(e, x.name)
                      alone == "ysj" \notin Flags(e)
                      wrong == WrongHarmony(base, x.w)
                      number == ~(single /\ x.name \in DOMAIN Cases)
                      person == ~("ym3" \in Flags(e) /\ x.name \in {"preesens_yks_1", "imperfekti_pass"})
                  IN (IF in /\ alone /\ number /\ person
                      THEN <<Case(e, x.w, 1, at, IF x.name = "partisiippi_2" \/ at = NoAttr THEN NoText ELSE base, IF at = NoAttr THEN NoText ELSE StructureOf(e, f, Len(x.w)))>>
                      \* (a singular form may be the same as a plural one)
                      ELSE IF ~number \/ ~person THEN (IF at = NoAttr THEN <<>> ELSE <<Case(e, x.w, 2, at, NoText, NoText)>>)
                      ELSE <<Case(e, x.w, 0, NoAttr, NoText, NoText)>>)
                     \o (IF wrong # x.w /\ wrong \notin all /\ Harmony(f) # BOTH /\ e.vow # BOTH THEN <<Case(e, wrong, 0, NoAttr, NoText, NoText)>> ELSE <<>>)
    IN FlattenSeq(Eager([i \in 1..Len(main) |-> one(main[i])]))
OtherCases(e, f, in) ==
    LET w == Plain(f)
        b == IF e.base # <<>> /\ ClassOf(e) \in {"seikkasana", "sidesana", "huudahdussana"} THEN Without(e.base, BAR) ELSE w
    IN IF ~in \/ ClassOf(e) = "etuliite" \/ "required" \in Flags(e) THEN <<Case(e, w, 0, NoAttr, NoText, NoText)>>
       ELSE <<Case(e, w, 1, [CLASS |-> ClassOf(e)], Without(b, EQUALS), StructureOf(e, f, Len(w)))>>
\* endings after the case: particles and possessive suffixes; comparison
KIN == <<107, 105, 110>>
KO(v) == <<107, IF v = BACK THEN 111 ELSE oUml>>
NI == <<110, 105>>
MME == <<109, 109, 101>>
NSA(v) == <<110, 115, IF v = BACK THEN 97 ELSE aUml>>
MPI == <<109, 112, 105>>
LongerCases(e, f, tables) ==
    LET fs == SelectSeq(FormsOf(e, f, tables), LAMBDA x : x.prio = 1 /\ ~Unsettled(e, x))
        named(n) == SelectSeq(fs, LAMBDA x : x.name = n)
        base == Plain(f)
        v == IF e.vow \in {BACK, FRONT} THEN e.vow ELSE IF e.vow = "" THEN Harmony(f) ELSE BOTH
        with(n, end, at) == LET l == named(n) IN Eager([i \in 1..Len(l) |-> Case(e, l[i].w \o end, 1, at @@ AttributesOf(e, n), NoText, NoText)])
        none(n, end) == LET l == named(n) IN Eager([i \in 1..Len(l) |-> Case(e, l[i].w \o end, 0, NoAttr, NoText, NoText)])
        cut(n, k, end, at) == LET l == named(n) IN Eager([i \in 1..Len(l) |-> Case(e, Upto(l[i].w, Len(l[i].w) - k) \o end, 1, at, NoText, NoText)])
        cutnot(n, k, end) == LET l == named(n) IN Eager([i \in 1..Len(l) |-> Case(e, Upto(l[i].w, Len(l[i].w) - k) \o end, 0, NoAttr, NoText, NoText)])
        particle == IF IsVerb(e) THEN "imperfekti_yks_3" ELSE "genetiivi"
        w == IF v = BACK THEN FRONT ELSE BACK
    IN IF Flags(e) \cap {"ysj", "ei_yks", "ym3"} # {} THEN <<>>
       ELSE with(particle, KIN, [FOCUS |-> "kin"])
            \o (IF v = BOTH THEN <<>> ELSE with(particle, KO(v), [KYSYMYSLIITE |-> "true"]) \o none(particle, KO(w)))
            \o (IF ClassOf(e) = "nimisana"
                THEN cut("essiivi", 2, NI, [POSSESSIVE |-> "1s", CLASS |-> "nimisana"]) \o cut("essiivi", 2, MME, [POSSESSIVE |-> "1p", CLASS |-> "nimisana"])
                     \o (IF v = BOTH THEN <<>> ELSE cut("essiivi", 2, NSA(v), [POSSESSIVE |-> "3", CLASS |-> "nimisana"]) \o cutnot("essiivi", 2, NSA(w)))
                ELSE <<>>)
            \o (IF ClassOf(e) = "laatusana" /\ e.c = "valo"
                THEN (IF "ei_vertm" \in Flags(e) THEN cutnot("genetiivi", 1, MPI) ELSE cut("genetiivi", 1, MPI, [COMPARISON |-> "comparative", CLASS |-> "laatusana", SIJAMUOTO |-> "nimento"]))
                ELSE <<>>)
\* an adverb takes particles and suffixes if its entry says so, and needs them if it says that
AdverbCases(e, f, in) ==
    LET w == Plain(f)
        fl == Flags(e)
        q(t, must, at) == <<Case(e, t, IF must THEN 1 ELSE 0, IF must THEN at ELSE NoAttr, NoText, NoText)>>
    IN q(w \o KIN, in /\ "liitesana" \in fl, [CLASS |-> "seikkasana", FOCUS |-> "kin"])
       \o q(w \o NI, in /\ "omistusliite" \in fl, [CLASS |-> "seikkasana", POSSESSIVE |-> "1s"])
       \o q(w \o MME, in /\ "omistusliite" \in fl, [CLASS |-> "seikkasana", POSSESSIVE |-> "1p"])
EntryCases(e, o, tables) ==
    FlattenSeq(Eager([i \in 1..Len(e.forms) |->
        IF e.wc[1] \in Uninflected
        THEN OtherCases(e, e.forms[i], Included(e, o)) \o (IF ClassOf(e) = "seikkasana" THEN AdverbCases(e, e.forms[i], Included(e, o)) ELSE <<>>)
        ELSE InflectedCases(e, e.forms[i], tables, Included(e, o)) \o (IF Included(e, o) THEN LongerCases(e, e.forms[i], tables) ELSE <<>>)]))

\* compounds of two nouns: the first in the nominative or the genitive singular
MayBegin(e) == Flags(e) \cap {"ei_ys", "ei_ysa", "ysj"} = {}
MayEnd(e) == Flags(e) \cap {"ei_ys", "ei_ysj"} = {}
CompoundCases(a, b, o, tables) ==
    LET x == IF "ei_yks" \in Flags(a) THEN <<>> ELSE FormsOf(a, a.forms[1], tables)
        y == FormsOf(b, b.forms[1], tables)
        first == SelectSeq(x, LAMBDA v : v.prio = 1 /\ v.name \in {"nominatiivi", "genetiivi"})
        second == SelectSeq(y, LAMBDA v : v.prio = 1 /\ v.name \in {"nominatiivi", "inessiivi", "partitiivi_mon"})
        ok == Included(a, o) /\ Included(b, o) /\ MayBegin(a) /\ MayEnd(b)
        one(u, v) == IF "ei_yks" \in Flags(b) /\ v.name \in DOMAIN Cases THEN <<>>
                     ELSE <<[Case(a, u.w \o v.w, IF ok THEN 1 ELSE 0, IF ok THEN [CLASS |-> "nimisana"] ELSE NoAttr, IF ok THEN u.w \o Plain(b.forms[1]) ELSE NoText,
                                  IF ok THEN StructureOf(a, u.w \o <<EQUALS>> \o v.w, Len(u.w \o v.w)) ELSE NoText) EXCEPT !.id2 = b.id]>>
    IN FlattenSeq(Eager([i \in 1..Len(first) |-> FlattenSeq(Eager([j \in 1..Len(second) |-> one(first[i], second[j])]))]))

\* a prefix and a word: the prefix says which classes of words it may begin
PrefixCases(a, b, o, tables) ==
    LET y == FormsOf(b, b.forms[1], tables)
        second == SelectSeq(y, LAMBDA v : v.prio = 1 /\ v.name \in {"nominatiivi", "inessiivi", "imperfekti_yks_3"})
        allowed == CASE ClassOf(b) = "nimisana" -> "eln" [] ClassOf(b) = "laatusana" -> "ell" [] ClassOf(b) = "teonsana" -> "elt"
        in == Included(a, o) /\ Included(b, o)
        ok == in /\ allowed \in Flags(a)
        p == Plain(a.forms[1])
        one(v) == [Case(a, p \o v.w, IF ok THEN 1 ELSE 0, IF ok THEN AttributesOf(b, v.name) ELSE NoAttr, NoText,
                        IF ok THEN StructureOf(a, a.forms[1] \o <<EQUALS>> \o v.w, Len(p \o v.w)) ELSE NoText) EXCEPT !.id2 = b.id]
    IN IF Flags(b) \cap {"ei_ys", "ei_ysj", "ei_yks", "ysj", "ym3"} # {} THEN <<>> ELSE Eager([i \in 1..Len(second) |-> one(second[i])])
PairCases(a, b, o, tables) == IF ClassOf(a) = "etuliite" THEN PrefixCases(a, b, o, tables) ELSE CompoundCases(a, b, o, tables)

----------------------------------------------------------------------------
(* Answers.  wi: word ids of an analysis as text.                            *)
IdText(id) == <<40>> \o id \o <<41>>
RECURSIVE Occurs(_, _)
Occurs(x, s) == IF Len(x) > Len(s) THEN FALSE ELSE IF Upto(s, Len(x)) = x THEN TRUE ELSE Occurs(x, Tail(s))
HasAt(a, at) == \A k \in DOMAIN at : k \in DOMAIN a.at /\ a.at[k] = at[k]
Of(r, idt, id2t) == SelectSeq(r, LAMBDA a : Occurs(IdText(idt), a.wi) /\ (id2t = <<>> \/ Occurs(IdText(id2t), a.wi)))
Right(x, r, idt, id2t) ==
    LET s == Of(r, idt, id2t) IN
    CASE x.must = 0 -> s = <<>>
      [] x.must = 1 -> \E i \in 1..Len(s) : HasAt(s[i], x.at) /\ (x.bf = NoText \/ s[i].bf = x.bf) /\ (x.st = NoText \/ s[i].st = x.st)
      [] x.must = 2 -> \A i \in 1..Len(s) : ~HasAt(s[i], x.at)
=============================================================================
