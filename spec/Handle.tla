------------------------------- MODULE Handle -------------------------------
(* A handle: a dictionary and option values.  Every answer of the library is *)
(* a function of these and of the arguments: this is what the absence of any *)
(* other state in the specification says.                                    *)
EXTENDS Gram, Utf8

DefaultOptions == [
    ignoreDot |-> FALSE, ignoreNumbers |-> FALSE, ignoreUpper |-> FALSE, ignoreNonwords |-> TRUE,
    firstUpper |-> TRUE, allUpper |-> TRUE, ocr |-> FALSE,
    extraHyphens |-> FALSE, missingHyphens |-> FALSE,
    titles |-> FALSE, unfinished |-> FALSE, bulleted |-> FALSE,
    ugly |-> TRUE, unknown |-> TRUE, min |-> 2]

BoolOptions == {0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16}
IntOptions == {9, 17}
SetBoolOption(o, k, v) ==
    LET b == v # 0 IN
    CASE k = 0 -> [o EXCEPT !.ignoreDot = b]
      [] k = 1 -> [o EXCEPT !.ignoreNumbers = b]
      [] k = 3 -> [o EXCEPT !.ignoreUpper = b]
      [] k = 4 -> [o EXCEPT !.ugly = ~b]
      [] k = 6 -> [o EXCEPT !.firstUpper = b]
      [] k = 7 -> [o EXCEPT !.allUpper = b]
      [] k = 8 -> [o EXCEPT !.ocr = b]
      [] k = 10 -> [o EXCEPT !.ignoreNonwords = b]
      [] k = 11 -> [o EXCEPT !.extraHyphens = b]
      [] k = 12 -> [o EXCEPT !.missingHyphens = b]
      [] k = 13 -> [o EXCEPT !.titles = b]
      [] k = 14 -> [o EXCEPT !.unfinished = b]
      [] k = 15 -> [o EXCEPT !.unknown = b]
      [] k = 16 -> [o EXCEPT !.bulleted = b]
      [] OTHER -> o
\* the size of the cache (17) has no observable effect
SetIntOption(o, k, v) == IF k = 9 THEN [o EXCEPT !.min = v] ELSE o

Closed == [open |-> FALSE, d |-> "", o |-> DefaultOptions]
NewHandle(d) == [open |-> TRUE, d |-> d, o |-> DefaultOptions]

----------------------------------------------------------------------------
MAX_WORD == 255
TooLong(w) == Len(w) > MAX_WORD

LexVerdict(w, o, T) == SpellTweaks(w, o.extraHyphens, T)
SpellAnswer(w, o, T) == IF SpellVerdict(w, o, LAMBDA x : LexVerdict(x, o, T)) THEN 1 ELSE 0
AnalyseAnswer(w, T) == Ana(T, w)
SuggestAnswer(w, o, T) == Suggestions(w, o, T)
GrammarAnswer(t, o, T, A) == GrammarErrors(t, o, LAMBDA w : LexVerdict(w, o, T) # FAILED, T, A)
HyphenAnswer(w, o, T) == Hyphenate(w, o, T)
=============================================================================
