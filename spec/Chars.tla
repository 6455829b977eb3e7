------------------------------- MODULE Chars -------------------------------
(* Characters are Unicode code points (naturals); texts and words are        *)
(* sequences of code points.  This module fixes the character classes, the   *)
(* one-to-one case mapping and the normalisation that every other part of    *)
(* the specification builds on.                                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

HYPHEN == 45        \* -
SOFT   == 173       \* SOFT HYPHEN
DOT    == 46
COMMA  == 44
COLON  == 58
APOS   == 39        \* '
RSQUO  == 8217      \* RIGHT SINGLE QUOTATION MARK
UHYPH  == 8208      \* HYPHEN
NBHYPH == 8209      \* NON-BREAKING HYPHEN
QUOT   == 34        \* "
SLASH  == 47
AT     == 64

----------------------------------------------------------------------------
(* Sequences as strings *)
Sub(s, from, to) == IF to < from THEN <<>> ELSE SubSeq(s, from, to)
From(s, i) == Sub(s, i, Len(s))                \* the rest of s from index i
Upto(s, i) == Sub(s, 1, i)                     \* the first i characters
StartsWith(s, p) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : s[i] = p[i]
EndsWith(s, p) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : s[Len(s) - Len(p) + i] = p[i]
OccursAt(s, p, k) == k + Len(p) - 1 <= Len(s) /\ \A i \in 1..Len(p) : s[k + i - 1] = p[i]
HasSub(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : OccursAt(s, p, k)
HasChar(s, c) == \E i \in 1..Len(s) : s[i] = c
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
\* the least i in lo..hi with P(i), or else dflt
First(lo, hi, dflt, P(_)) ==
    LET F[i \in Int] == IF i > hi THEN dflt ELSE IF P(i) THEN i ELSE F[i + 1] IN F[lo]
IndexOf(s, c) == First(1, Len(s), 0, LAMBDA i : s[i] = c)
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
\* the same sequence, with its elements computed once (TLC computes those of [i \in S |-> e] at each use)
Eager(s) == SubSeq(s, 1, Len(s))
\* the same for functions
Once(f) == f @@ <<>>
Times(c, n) == Eager([i \in 1..n |-> c])
MapSeq(s, f(_)) == Eager([i \in 1..Len(s) |-> f(s[i])])
SetAt(s, i, c) == [s EXCEPT ![i] = c]

----------------------------------------------------------------------------
(* Classes *)
IsWhite(c) ==
    \/ c >= 9 /\ c <= 13
    \/ c \in {32, 133, 160, 5760, 6158, 8232, 8233, 8239, 8287, 12288}
    \/ c >= 8192 /\ c <= 8202

IsLetter(c) ==
    \/ c >= 65 /\ c <= 90
    \/ c >= 97 /\ c <= 122
    \/ c >= 192 /\ c <= 214           \* Latin-1, without the multiplication
    \/ c >= 216 /\ c <= 246           \* and division signs
    \/ c >= 248 /\ c <= 687           \* Latin Extended and IPA
    \/ c >= 1024 /\ c <= 1153         \* Cyrillic
    \/ c >= 1162 /\ c <= 1319
    \/ c >= 5120 /\ c <= 5571         \* Canadian syllabics
    \/ c >= 64256 /\ c <= 64260       \* Latin ligatures

IsDigitCh(c) == c >= 48 /\ c <= 57

IsQuote(c) == c \in {34, 187, 8221}   \* quotation marks used in Finnish

\* . , ; - ! ? : ' ( ) [ ] { } / &  and typographic variants
PunctSet == {46, 44, 59, 45, 33, 63, 58, 39, 40, 41, 91, 93, 123, 125, 47, 38,
             173, 8217, 8208, 8209, 8211, 8212, 8220, 8230, 34, 187, 8221}
IsPunct(c) == c \in PunctSet

CharType(c) ==
    IF IsLetter(c) THEN "letter"
    ELSE IF IsWhite(c) THEN "white"
    ELSE IF IsPunct(c) THEN "punct"
    ELSE IF IsDigitCh(c) THEN "digit"
    ELSE "unknown"

----------------------------------------------------------------------------
(* Simple case mapping: pairs <<first upper, last upper, step, distance>>.   *)
CaseRanges == <<
    <<65, 90, 1, 32>>,  <<192, 214, 1, 32>>, <<216, 222, 1, 32>>,
    <<256, 310, 2, 1>>, <<313, 327, 2, 1>>,  <<330, 374, 2, 1>>, <<377, 381, 2, 1>>,
    <<439, 439, 1, 219>>,
    <<478, 494, 2, 1>>, <<504, 542, 2, 1>>,
    <<1024, 1039, 1, 80>>, <<1040, 1071, 1, 32>>,
    <<1120, 1152, 2, 1>>, <<1162, 1318, 2, 1>> >>

LowerSlow(c) ==
    LET R == {k \in 1..Len(CaseRanges) :
                /\ c >= CaseRanges[k][1] /\ c <= CaseRanges[k][2]
                /\ (c - CaseRanges[k][1]) % CaseRanges[k][3] = 0}
    IN IF R = {} THEN c ELSE c + CaseRanges[CHOOSE k \in R : TRUE][4]
UpperSlow(c) ==
    LET R == {k \in 1..Len(CaseRanges) :
                LET d == c - CaseRanges[k][4] IN
                /\ d >= CaseRanges[k][1] /\ d <= CaseRanges[k][2]
                /\ (d - CaseRanges[k][1]) % CaseRanges[k][3] = 0}
    IN IF R = {} THEN c ELSE c - CaseRanges[CHOOSE k \in R : TRUE][4]
LowerTab == [c \in 0..1400 |-> LowerSlow(c)]
UpperTab == [c \in 0..1400 |-> UpperSlow(c)]
ToLower(c) == IF c < 0 \/ c > 1400 THEN c ELSE LowerTab[c]
ToUpper(c) == IF c < 0 \/ c > 1400 THEN c ELSE UpperTab[c]
IsUpper(c) == ToLower(c) # c \/ c = 399          \* capital schwa has no pair
IsLower(c) == ToUpper(c) # c
LowerStr(s) == MapSeq(s, ToLower)

\* Laws of the case mapping over the whole mapped area (checked by TLC once)
CaseLaws ==
    /\ \A c \in 0..1400 : ToLower(ToLower(c)) = ToLower(c)
    /\ \A c \in 0..1400 : ToUpper(ToUpper(c)) = ToUpper(c)
    /\ \A c \in 0..1400 : ToLower(c) # c => ToUpper(ToLower(c)) = c
    /\ \A c \in 0..1400 : ToUpper(c) # c => ToLower(ToUpper(c)) = c
    /\ \A c \in 0..1400 : ~(IsUpper(c) /\ IsLower(c))
    /\ \A c \in 0..1400 : (IsUpper(c) \/ IsLower(c)) => CharType(c) = "letter"
    /\ \A c \in 0..1400 : CharType(ToLower(c)) = CharType(c) /\ CharType(ToUpper(c)) = CharType(c)

----------------------------------------------------------------------------
(* Normalisation: letters written with a combining mark become one letter,   *)
(* ligatures and letterlike symbols are spelled out, typographic hyphens and *)
(* apostrophes become ASCII.                                                 *)
mGrave == 768
mAcute == 769
mCirc == 770
mTilde == 771
mDia == 776
mRing == 778
mCed == 807
mCaron == 780
mBreve == 774
Compose == {
  <<65,mGrave,192>>, <<65,mAcute,193>>, <<65,mCirc,194>>, <<65,mTilde,195>>, <<65,mDia,196>>, <<65,mRing,197>>, <<67,mCed,199>>,
  <<69,mGrave,200>>, <<69,mAcute,201>>, <<69,mCirc,202>>, <<69,mDia,203>>, <<73,mGrave,204>>, <<73,mAcute,205>>, <<73,mCirc,206>>, <<73,mDia,207>>,
  <<78,mTilde,209>>, <<79,mGrave,210>>, <<79,mAcute,211>>, <<79,mCirc,212>>, <<79,mTilde,213>>, <<79,mDia,214>>,
  <<85,mGrave,217>>, <<85,mAcute,218>>, <<85,mCirc,219>>, <<85,mDia,220>>, <<89,mAcute,221>>,
  <<97,mGrave,224>>, <<97,mAcute,225>>, <<97,mCirc,226>>, <<97,mTilde,227>>, <<97,mDia,228>>, <<97,mRing,229>>, <<99,mCed,231>>,
  <<101,mGrave,232>>, <<101,mAcute,233>>, <<101,mCirc,234>>, <<101,mDia,235>>, <<105,mGrave,236>>, <<105,mAcute,237>>, <<105,mCirc,238>>, <<105,mDia,239>>,
  <<110,mTilde,241>>, <<111,mGrave,242>>, <<111,mAcute,243>>, <<111,mCirc,244>>, <<111,mTilde,245>>, <<111,mDia,246>>,
  <<117,mGrave,249>>, <<117,mAcute,250>>, <<117,mCirc,251>>, <<117,mDia,252>>, <<121,mAcute,253>>, <<121,mDia,255>>,
  <<83,mCaron,352>>, <<115,mCaron,353>>, <<90,mCaron,381>>, <<122,mCaron,382>>,
  <<1048,mBreve,1049>>, <<1080,mBreve,1081>>, <<1045,mGrave,1024>>, <<1077,mGrave,1104>>, <<1045,mDia,1025>>, <<1077,mDia,1105>>,
  <<1043,mAcute,1027>>, <<1075,mAcute,1107>>, <<1054,mDia,1254>>, <<1086,mDia,1255>> }
CombiningMarks == {t[2] : t \in Compose}
ComposeOf(b, m) == {t[3] : t \in {u \in Compose : u[1] = b /\ u[2] = m}}
SpellOut == [c \in {8217, 8208, 8209, 8451, 8457, 64256, 64257, 64258, 64259, 64260} |->
    CASE c = 8217 -> <<39>> [] c = 8208 -> <<45>> [] c = 8209 -> <<45>>
      [] c = 8451 -> <<176, 67>> [] c = 8457 -> <<176, 70>>
      [] c = 64256 -> <<102, 102>> [] c = 64257 -> <<102, 105>> [] c = 64258 -> <<102, 108>>
      [] c = 64259 -> <<102, 102, 105>> [] c = 64260 -> <<102, 102, 108>>]
SpellOutDom == DOMAIN SpellOut

Normalise(s) ==
    IF \A i \in 1..Len(s) : s[i] \notin CombiningMarks /\ s[i] \notin SpellOutDom THEN s ELSE
    LET N[i \in Nat] ==
        IF i > Len(s) THEN <<>>
        ELSE IF i < Len(s) /\ s[i + 1] \in CombiningMarks /\ ComposeOf(s[i], s[i + 1]) # {}
             THEN <<CHOOSE x \in ComposeOf(s[i], s[i + 1]) : TRUE>> \o N[i + 2]
        ELSE IF s[i] \in SpellOutDom THEN SpellOut[s[i]] \o N[i + 1]
        ELSE <<s[i]>> \o N[i + 1]
    IN N[1]
NormaliseLaws == \A t \in Compose : Normalise(<<t[1], t[2]>>) = <<t[3]>> /\ Normalise(<<t[3]>>) = <<t[3]>>

=============================================================================
