From 8144e1268632da58ab625eef777f01fd21dafb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:42 +0000
Subject: [PATCH 01/38] fix: treat U+00C0 (LATIN CAPITAL LETTER A WITH GRAVE)
 as a letter

---
 libvoikko/src/character/charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/character/charset.cpp b/libvoikko/src/character/charset.cpp
index 00c3a5e..681c668 100644
--- a/libvoikko/src/character/charset.cpp
+++ b/libvoikko/src/character/charset.cpp
@@ -42,7 +42,7 @@ namespace libvoikko {
 char_type get_char_type(wchar_t c) {
 	if ((c >= 0x41 && c <= 0x5A) || /* A-Z */
 	    (c >= 0x61 && c <= 0x7A) || /* a-z */
-	    (c >= 0xC1 && c <= 0xD6) || /* À-Ö */
+	    (c >= 0xC0 && c <= 0xD6) || /* À-Ö */
 	    (c >= 0xD8 && c <= 0xF6) || /* Ø-ö */
 	    (c >= 0x00F8 && c <= 0x02AF) || /* ø-ɏ */
 	    (c >= 0x0400 && c <= 0x0481) || /* Ѐ-ҁ - Cyrillic */
-- 
2.43.0


From 166d63c572848bb8f6920d77c7ceb3a45312400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:47 +0000
Subject: [PATCH 02/38] fix: list "positive" among the values of the attribute
 COMPARISON

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 94ccc78..76bcdcc 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -1129,7 +1129,9 @@ std::list<const wchar_t *> FinnishVfstAnalyzer::getAttributeValues(const char *
 		return valuesFromMap(numberMap);
 	}
 	if (attribute == "COMPARISON") {
-		return valuesFromMap(comparisonMap);
+		std::list<const wchar_t *> values = valuesFromMap(comparisonMap);
+		values.push_back(L"positive"); // has no tag of its own in the lexicon
+		return values;
 	}
 	if (attribute == "FOCUS") {
 		return valuesFromMap(focusMap);
-- 
2.43.0


From d430645a49312711a8e68364270b255d8d6c4015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:55 +0000
Subject: [PATCH 03/38] fix: forget cached spelling and grammar results when
 the hyphen options change

---
 libvoikko/src/setup/setup.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..78851b7 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,21 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+/** Sets an option that affects the results stored in the spelling and grammar caches. */
+static int setSpellerOption(VoikkoHandle * handle, int value, int * option) {
+		int newValue = (value ? 1 : 0);
+		if (*option != newValue) {
+			*option = newValue;
+			if (handle->spellerCache) {
+				int sizeParam = handle->spellerCache->getSizeParam();
+				delete handle->spellerCache;
+				handle->spellerCache = new spellchecker::SpellerCache(sizeParam);
+			}
+			handle->grammarChecker->cache.clear();
+		}
+		return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -109,11 +124,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setSpellerOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
-- 
2.43.0


From 4c455aa6090f8e882dd22116ef5ab8b1ad822957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:00 +0000
Subject: [PATCH 04/38] fix: let the UTF-8 tokenizer see as much of the text as
 the wide character one needs

---
 libvoikko/src/tokenizer/interface.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/tokenizer/interface.cpp b/libvoikko/src/tokenizer/interface.cpp
index c5ae741..f73d87f 100644
--- a/libvoikko/src/tokenizer/interface.cpp
+++ b/libvoikko/src/tokenizer/interface.cpp
@@ -30,6 +30,7 @@
 #include "setup/setup.hpp"
 #include "utils/StringUtils.hpp"
 #include "tokenizer/Tokenizer.hpp"
+#include "character/SimpleChar.hpp"
 #include <cwchar>
 
 namespace libvoikko { namespace tokenizer {
@@ -40,13 +41,21 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenUcs4(VoikkoHandle * options,
 }
 
 static enum voikko_token_type doVoikkoNextTokenCstr(VoikkoHandle * options, const char * text, size_t textlen,
-                                                           size_t * tokenlen, size_t maxChars) {
+                                                           size_t * tokenlen, size_t maxChars, bool * contextSufficient) {
 	wchar_t * text_ucs4 = utils::StringUtils::ucs4FromUtf8(text, textlen, maxChars);
 	if (text_ucs4 == 0) {
+		*contextSufficient = true;
 		return TOKEN_NONE;
 	}
+	size_t ucs4len = wcslen(text_ucs4);
 	voikko_token_type result =
-		voikkoNextTokenUcs4(options, text_ucs4, wcslen(text_ucs4), tokenlen);
+		voikkoNextTokenUcs4(options, text_ucs4, ucs4len, tokenlen);
+	// Tokenizer does not look beyond the first whitespace character after the token. A whitespace token
+	// is complete if something follows it.
+	*contextSufficient = ucs4len < maxChars || (result == TOKEN_WHITESPACE && *tokenlen < ucs4len);
+	for (size_t i = *tokenlen; i < ucs4len && !*contextSufficient; i++) {
+		*contextSufficient = character::SimpleChar::isWhitespace(text_ucs4[i]);
+	}
 	delete[] text_ucs4;
 	return result;
 }
@@ -61,8 +70,9 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenCstr(VoikkoHandle * options,
 	*tokenlen = 0;
 	voikko_token_type result;
 	while (true) {
-		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);
-		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {
+		bool contextSufficient;
+		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars, &contextSufficient);
+		if (contextSufficient) {
 			break;
 		}
 		maxChars *= 2;
-- 
2.43.0


From bd10c6fe2698fd65447855fd7debc8c00066191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:00 +0000
Subject: [PATCH 05/38] fix: reject invalid UTF-8 also at the beginning of a
 long text

---
 libvoikko/src/utils/StringUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index 5b2db07..b4bd7ed 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -72,7 +72,11 @@ wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCoun
 	try {
 		size_t chars;
 		if (maxChars * 6 + 1 < byteCount) {
-			chars = maxChars;
+			// Only the part that will be converted needs to be valid.
+			const char * ptr = original;
+			for (chars = 0; chars < maxChars; chars++) {
+				utf8::next(ptr, original + byteCount);
+			}
 		}
 		else {
 			chars = std::min(static_cast<size_t>(utf8::distance(original, original + byteCount)), maxChars);
-- 
2.43.0


From 521e56438e7cb0b5e99c52f0a2e9a8d02cfd0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:54 +0000
Subject: [PATCH 06/38] fix: do not look for suggestions to a word of a single
 character after normalisation

---
 libvoikko/src/spellchecker/suggestions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..28ffc71 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -95,6 +95,10 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		return 0;
 	}
 	wlen = wcslen(nword);
+	if (wlen <= 1) {
+		delete[] nword;
+		return 0;
+	}
 	
 	if (options->ignore_dot) {
 		if (wlen == 2) {
-- 
2.43.0


From f4958e48f06939ac13fce8611b0ce8507027e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:54 +0000
Subject: [PATCH 07/38] fix: use the length of the original word when restoring
 its typographic characters

---
 libvoikko/src/spellchecker/suggestions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 28ffc71..dc58113 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -150,7 +150,7 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 	/* Undo character set normalisation */
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-		voikko_cset_reformat(word, wlen, &(suggestions[i]), suglen);
+		voikko_cset_reformat(word, wcslen(word), &(suggestions[i]), suglen);
 		i++;
 	}
 
-- 
2.43.0


From 22a25ac7d650c80342c46dafca5c1925377a7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:54 +0000
Subject: [PATCH 08/38] fix: do not carry the capital letter of a rejected
 split over to shorter splits

---
 .../src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp
index e502b2e..54b1699 100644
--- a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp
+++ b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp
@@ -79,6 +79,7 @@ void SuggestionGeneratorSplitWord::generate(SuggestionStatus * s) const {
 		if (s->getWord()[splitind-2] == L'-' || s->getWord()[splitind-1] == L'-' ||
 		    s->getWord()[splitind+1] == L'-') continue;
 		size_t stripLead2 = (s->getWord()[splitind] == L'-') ? 1 : 0; // "suuntaa-antava" -> "suuntaa antava"
+		part1[0] = s->getWord()[0]; // may have been capitalized for a longer part1
 		part1[splitind] = L'\0';
 		if (getResultForPart1(s, part1, splitind, prio_total)) {
 			wchar_t * suggestion = new wchar_t[s->getWordLength() + 2];
-- 
2.43.0


From 9dd49e309e1702fb35362de4ede2d4f81fd29c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 09/38] fix: find grammar errors in texts that are not null
 terminated at their given length

---
 libvoikko/src/grammar/GrammarChecker.cpp | 4 ++--
 libvoikko/src/grammar/GrammarChecker.hpp | 2 +-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..c1e55e8 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -39,11 +39,11 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (wcsncmp(cache.paragraph, text, textlen) != 0 || wcslen(cache.paragraph) > textlen) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..5a79cbe 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,7 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From 4a23204937dcebe1005ca70e59b57db0ff8493ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:36 +0000
Subject: [PATCH 10/38] fix: measure autocorrect errors correctly after soft
 hyphens and repeated white space

---
 .../VfstAutocorrectCheck.cpp                  | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index c39482c..432f504 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -128,33 +128,18 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		transducer->prepare(configuration, inputBuffer + position, sentenceLengthUtf - position);
 		size_t prefixLength = 0;
 		if (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
-			bool endAtBoundary = false;
-			for (vector<size_t>::iterator p = ucsNormalizedPositions.begin(); p != ucsNormalizedPositions.end(); ++p) {
-				if (ucsPosition + prefixLength == *p) {
-					endAtBoundary = true;
-					break;
-				}
+			size_t endToken = 0;
+			while (endToken < ucsNormalizedPositions.size() &&
+			       (ucsNormalizedPositions[endToken] != position + prefixLength)) {
+				endToken++;
 			}
-			if (!endAtBoundary) {
+			if (endToken == ucsNormalizedPositions.size()) {
 				continue; // end is not at word boundary
 			}
 			CacheEntry * e = new CacheEntry(1);
 			e->error.setErrorCode(GCERR_INVALID_SPELLING);
-			size_t startPos = sentence->pos + ucsPosition;
-			e->error.setStartPos(startPos);
-			size_t lengthCorrection = 0;
-			for (size_t n = 0; n < ucsOriginalPositions.size(); n++) {
-				size_t oPos = ucsOriginalPositions[n];
-				size_t nPos = ucsNormalizedPositions[n];
-				if (oPos <= startPos) {
-					lengthCorrection = oPos - nPos;
-				}
-				if (nPos > startPos + prefixLength) {
-					lengthCorrection = (ucsOriginalPositions[n - 1] - ucsNormalizedPositions[n - 1]) - lengthCorrection;
-					break;
-				}
-			}
-			e->error.setErrorLen(prefixLength + lengthCorrection);
+			e->error.setStartPos(sentence->pos + ucsPosition);
+			e->error.setErrorLen(ucsOriginalPositions[endToken] - ucsPosition);
 			if (lowerFirst) {
 				outputBuffer[0] = character::SimpleChar::upper(outputBuffer[0]);
 			}
-- 
2.43.0


From bf6d8da1fdfe7784dc83a690ea771bb3fe110162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 11/38] fix: byte swap of weights in weighted transducers lost
 bits to sign extension

---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..cb6195d 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -63,7 +63,7 @@ namespace libvoikko { namespace fst {
 	}
 	
 	static int16_t swap(int16_t x) {
-		return (x>>8) | (x<<8);
+		return static_cast<int16_t>(swap(static_cast<uint16_t>(x)));
 	}
 	
 	static uint32_t swap(uint32_t x) {
-- 
2.43.0


From ba2c06005ff6107f4cccba549dfade7d39eb2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 12/38] fix: weighted lookup skipped flag transitions after a
 failed one at the end of input

---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index cb6195d..1b75403 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -360,7 +360,7 @@ namespace libvoikko { namespace fst {
 					}
 					goto nextInMainLoop;
 				}
-				else if (currentTransition->symIn > inputSym) {
+				else if (inputSym != 0 && currentTransition->symIn > inputSym) {
 					break;
 				}
 				else if (tc >= 1 && currentTransition->symIn >= firstNormalChar &&
-- 
2.43.0


From 30cc17299642a67c95d3d3b121a9f1e212a5c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 13/38] fix: backtracking in a weighted transducer kept the
 flags of abandoned transitions

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 1b75403..0df9601 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -422,6 +422,9 @@ namespace libvoikko { namespace fst {
 				if (previousInputSymbol >= firstNormalChar) {
 					configuration->inputDepth--;
 				}
+				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
+					configuration->flagDepth--;
+				}
 			}
 			configuration->currentTransitionStack[configuration->stackDepth]++;
 		}
-- 
2.43.0


From cc8cfe08835d204cf3e72f4e9aee2cce0446aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 14/38] fix: flag values left over by an unfinished lookup
 affected the next one

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..b8422d8 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -201,6 +201,10 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			// the previous search may have ended before undoing its flag updates
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From c0d306c8e6e9ddc34f909cee04745ef13f7541b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:56 +0000
Subject: [PATCH 15/38] fix: voikkovfstc accepted empty lines and unparseable
 final weights and target states

---
 libvoikko/src/tools/voikkovfstc.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index b2aa41a..1245729 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -318,6 +318,11 @@ int main(int argc, char ** argv) {
 			bool hasFinalWeight = false;
 
 			ss >> sourceStateOrd;
+			if (ss.fail()) {
+				cerr << "ERROR: format error on input line:" << endl;
+				cerr << line << endl;
+				exit(1);
+			}
 			if (ss.eof()) {
 				finalState = true;
 			}
@@ -333,6 +338,11 @@ int main(int argc, char ** argv) {
 					else {
 						s2 >> targetStateOrd;
 					}
+					if (s2.fail()) {
+						cerr << "ERROR: format error on input line:" << endl;
+						cerr << line << endl;
+						exit(1);
+					}
 				}
 				else {
 					ss >> targetStateOrd;
-- 
2.43.0


From f374d21a900820ec6eedcdc7570e3c15075fc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:56 +0000
Subject: [PATCH 16/38] fix: voikkovfstc stored weights that do not fit in 16
 bits as arbitrary other weights

---
 libvoikko/src/tools/voikkovfstc.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index 1245729..7aead27 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -79,12 +79,20 @@ static uint32_t swapIf(bool doSwap, uint32_t x) {
 	return doSwap ? swap(x) : x;
 }
 
+static int16_t checkedWeight(double weight) {
+	if (!(weight > -32769.0 && weight < 32768.0)) {
+		cerr << "ERROR: weight out of range" << endl;
+		exit(1);
+	}
+	return weight;
+}
+
 static int16_t probWeightToLog(double probWeight) {
-	return -log(probWeight) * 100.0; // TODO check for overflow
+	return checkedWeight(-log(probWeight) * 100.0);
 }
 
 static int16_t logWeightToLog(double logWeight) {
-	return logWeight * 1000.0; // TODO check for overflow
+	return checkedWeight(logWeight * 1000.0);
 }
 
 static void writeTrans(ofstream & out, bool doSwap, WeightedTransition & t, bool weights) {
-- 
2.43.0


From 5c71e753c13b214cffd9c0b2a6a04b1a140b9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:56 +0000
Subject: [PATCH 17/38] fix: voikkovfstc corrupted negative weights when
 swapping bytes

---
 libvoikko/src/tools/voikkovfstc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index 7aead27..d83becd 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -56,7 +56,7 @@ static uint16_t swap(uint16_t x) {
 }
 
 static int16_t swap(int16_t x) {
-	return (x>>8) | (x<<8);
+	return static_cast<int16_t>(swap(static_cast<uint16_t>(x)));
 }
 
 static uint16_t swapIf(bool doSwap, uint16_t x) {
-- 
2.43.0


From 7f5bfeaad3b9f4327c6e9ab2f210c6119fef75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:56 +0000
Subject: [PATCH 18/38] fix: voikkovfstc wrote unusable files when there are
 more than 65535 symbols

---
 libvoikko/src/tools/voikkovfstc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index d83becd..17d8636 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -172,6 +172,10 @@ static void ensureSymbolInMap(string & symStr, vector<Symbol> & symVector, map<s
 			cerr << "ERROR: '[' is not a valid VFST symbol" << endl;
 			exit(1);
 		}
+		if (symVector.size() >= 0xFFFF) {
+			cerr << "ERROR: too many symbols" << endl;
+			exit(1);
+		}
 		Symbol s;
 		s.code = symVector.size();
 		s.text = symStr;
-- 
2.43.0


From daf080c548da5cbd30fa9250ad2901ba69a7761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:54 +0000
Subject: [PATCH 19/38] fix: dictionaries with a ten character tag were taken
 for standard dictionaries

Comparing the result of rfind with the length of the tag minus 11 is also true
when the suffix is not found and the tag has exactly ten characters.
---
 libvoikko/src/setup/DictionaryFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/DictionaryFactory.cpp b/libvoikko/src/setup/DictionaryFactory.cpp
index 6be8652..dd241d1 100644
--- a/libvoikko/src/setup/DictionaryFactory.cpp
+++ b/libvoikko/src/setup/DictionaryFactory.cpp
@@ -92,7 +92,7 @@ list<Dictionary> DictionaryFactory::findAllAvailable(const std::string & path) {
 		if (i->second.isDefault()) {
 			dicts.push_front(i->second);
 		}
-		else if (i->first.rfind("-x-standard") == i->first.size() - 11 &&
+		else if (i->first.size() >= 11 && i->first.compare(i->first.size() - 11, 11, "-x-standard") == 0 &&
 		         !DictionaryLoader::hasDefaultForLanguage(&dictMap, i->second.getLanguage().getLanguage())) {
 			dicts.push_front(i->second);
 		}
-- 
2.43.0


From 0558c1be34a2bcf2ba03ba3b3df87bc0a1b796a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:54 +0000
Subject: [PATCH 20/38] fix: voikko_terminate crashed when no handle was open

---
 libvoikko/src/compatibility/interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index 0ecad1e..eae6a29 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -128,7 +128,7 @@ VOIKKOEXPORT const char * voikko_init(int * handle, const char * langcode, int c
 }
 
 VOIKKOEXPORT int voikko_terminate(int handle) {
-	if (handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
+	if (handles && handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
 		voikkoTerminate(handles[handle]);
 		handles[handle] = 0;
 		freeHandlesIfPossible();
-- 
2.43.0


From bcdd638ddb94e12df014300d62c89632ed558e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:40 +0000
Subject: [PATCH 21/38] fix: Grammar-Backend line of a dictionary lost the path
 of the dictionary

---
 libvoikko/src/setup/V5DictionaryLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/V5DictionaryLoader.cpp b/libvoikko/src/setup/V5DictionaryLoader.cpp
index dbe774d..b5034ae 100644
--- a/libvoikko/src/setup/V5DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V5DictionaryLoader.cpp
@@ -109,7 +109,7 @@ Dictionary V5DictionaryLoader::dictionaryFromPath(const string & path) {
 			hyphenatorBackend = BackendProperties(line.substr(20), true);
 		}
 		else if (line.find("Grammar-Backend: ") == 0) {
-			grammarBackend = BackendProperties(line.substr(17), true);
+			grammarBackend = BackendProperties(line.substr(17), path, true);
 		}
 	}
 	file.close();
-- 
2.43.0


From 94defe0d6d1187b3f7da74de5717beb47a16e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:40 +0000
Subject: [PATCH 22/38] fix: truncated or damaged transducer files were not
 refused

---
 libvoikko/src/fst/Transducer.cpp           | 39 +++++++++++++-
 libvoikko/src/fst/Transducer.hpp           |  4 ++
 libvoikko/src/fst/UnweightedTransducer.cpp | 59 ++++++++++++++++++++--
 libvoikko/src/fst/UnweightedTransducer.hpp |  3 ++
 libvoikko/src/fst/WeightedTransducer.cpp   | 59 ++++++++++++++++++++--
 libvoikko/src/fst/WeightedTransducer.hpp   |  3 ++
 6 files changed, 159 insertions(+), 8 deletions(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 1953abf..843b615 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -56,6 +56,8 @@ using namespace std;
 
 namespace libvoikko { namespace fst {
 	
+	static const size_t HEADER_SIZE = 16;
+	
 	Transducer::~Transducer() {
 	}
 
@@ -130,12 +132,15 @@ namespace libvoikko { namespace fst {
 			}
 			
 			struct stat st;
-			fstat(fd, &st);
+			if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) {
+				close(fd);
+				return 0;
+			}
 			fileLength = st.st_size;
 			
 			void * map = mmap(0, fileLength, PROT_READ, MAP_SHARED, fd, 0);
 			close(fd);
-			return map;
+			return map == MAP_FAILED ? 0 : map;
 		#endif
 		#ifdef WIN32
 			HANDLE fileHandle = CreateFile(filePath, GENERIC_READ, FILE_SHARE_READ,
@@ -165,6 +170,9 @@ namespace libvoikko { namespace fst {
 		const uint32_t COOKIE2 = 0x000351FA;
 		const uint32_t COOKIE1REV = 0x6E3A0100;
 		const uint32_t COOKIE2REV = 0xFA510300;
+		if (fileLength < HEADER_SIZE + sizeof(uint16_t)) {
+			throw setup::DictionaryException("Transducer file is too short");
+		}
 		if (memcmp(filePtr, &COOKIE1, sizeof(uint32_t)) == 0 &&
 		    memcmp(filePtr + sizeof(uint32_t), &COOKIE2, sizeof(uint32_t)) == 0) {
 			// native byte order
@@ -182,6 +190,33 @@ namespace libvoikko { namespace fst {
 		return filePtr[8] == 0x01;
 	}
 	
+	size_t Transducer::checkSymbolTable(bool needsByteSwapping, size_t transitionSize) const {
+		const char * fileStart = static_cast<const char *>(map);
+		uint16_t symbolCount;
+		memcpy(&symbolCount, fileStart + HEADER_SIZE, sizeof(uint16_t));
+		if (needsByteSwapping) {
+			symbolCount = (symbolCount >> 8) | (symbolCount << 8);
+		}
+		size_t position = HEADER_SIZE + sizeof(uint16_t);
+		for (uint16_t i = 0; i < symbolCount; i++) {
+			const char * symbol = fileStart + position;
+			size_t symbolLength = strnlen(symbol, fileLength - position);
+			if (symbolLength == fileLength - position) {
+				throw setup::DictionaryException("Symbol table of the transducer is incomplete");
+			}
+			if (i == 0 && symbolLength > 0) {
+				throw setup::DictionaryException("First symbol of the transducer is not epsilon");
+			}
+			position += symbolLength + 1;
+		}
+		// transition table starts at next boundary
+		position = (position + transitionSize - 1) / transitionSize * transitionSize;
+		if (symbolCount == 0 || position >= fileLength || fileLength % transitionSize != 0) {
+			throw setup::DictionaryException("Transition table of the transducer is incomplete");
+		}
+		return (fileLength - position) / transitionSize;
+	}
+	
 	uint16_t Transducer::getFlagDiacriticFeatureCount() const {
 		return flagDiacriticFeatureCount;
 	}
diff --git a/libvoikko/src/fst/Transducer.hpp b/libvoikko/src/fst/Transducer.hpp
index 1eccc48..9ba8455 100644
--- a/libvoikko/src/fst/Transducer.hpp
+++ b/libvoikko/src/fst/Transducer.hpp
@@ -67,6 +67,10 @@ namespace libvoikko { namespace fst {
 			void vfstMunmap(void * map, size_t fileLength);
 			bool checkNeedForByteSwapping(const char * filePtr);
 			bool isWeightedTransducerFile(const char * filePtr);
+			
+			/** Checks that the symbol table is within the file and is followed by a non-empty table of
+			 *  transitions of given size. Returns the number of cells in the table of transitions. */
+			size_t checkSymbolTable(bool needsByteSwapping, size_t transitionSize) const;
 		public:
 			uint16_t flagDiacriticFeatureCount;
 			uint16_t firstNormalChar;
diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index b8422d8..30c8690 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -127,12 +127,26 @@ namespace libvoikko { namespace fst {
 		if (!map) {
 			throw setup::DictionaryException("Unweighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+		byteSwapped = false;
+		try {
+			load();
+		}
+		catch (setup::DictionaryException & e) {
+			deleteSymbols();
+			terminate();
+			throw;
+		}
+	}
+	
+	void UnweightedTransducer::load() {
+		bool needsByteSwapping = checkNeedForByteSwapping(static_cast<char *>(map));
 		if (isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected unweighted but got weighted transducer");
 		}
-		if (byteSwapped) {
+		size_t cellCount = checkSymbolTable(needsByteSwapping, sizeof(Transition));
+		if (needsByteSwapping) {
 			byteSwapTransducer(map, fileLength);
+			byteSwapped = true;
 		}
 		char * filePtr = static_cast<char *>(map);
 		
@@ -150,6 +164,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Symbol of the transducer is not valid UTF-8");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
@@ -186,14 +203,50 @@ namespace libvoikko { namespace fst {
 			}
 		}
 		transitionStart = reinterpret_cast<Transition *>(filePtr);
+		checkTransitions(cellCount);
 	}
 	
-	UnweightedTransducer::~UnweightedTransducer() {
+	void UnweightedTransducer::checkTransitions(size_t cellCount) const {
+		enum CellType { TRANSITION, STATE_HEAD, OVERFLOW_CELL };
+		vector<char> cellTypes(cellCount, TRANSITION);
+		for (size_t state = 0; state < cellCount; ) {
+			cellTypes[state] = STATE_HEAD;
+			size_t stateLength = transitionStart[state].transInfo.moreTransitions + 1;
+			if (stateLength == 256 && state + 1 < cellCount) {
+				cellTypes[state + 1] = OVERFLOW_CELL;
+				uint32_t moreTransitions = reinterpret_cast<OverflowCell *>(transitionStart + state + 1)->moreTransitions;
+				if (moreTransitions < 255 || moreTransitions >= cellCount) {
+					throw setup::DictionaryException("Invalid number of transitions in transducer");
+				}
+				stateLength = moreTransitions + 2;
+			}
+			if (stateLength > cellCount - state) {
+				throw setup::DictionaryException("Transition table of the transducer is incomplete");
+			}
+			state += stateLength;
+		}
+		for (size_t i = 0; i < cellCount; i++) {
+			const Transition * t = transitionStart + i;
+			if (cellTypes[i] == OVERFLOW_CELL || t->symIn == 0xFFFF) {
+				continue;
+			}
+			if (t->symOut >= symbolToString.size() || t->transInfo.targetState >= cellCount ||
+			    cellTypes[t->transInfo.targetState] != STATE_HEAD) {
+				throw setup::DictionaryException("Invalid transition in transducer");
+			}
+		}
+	}
+	
+	void UnweightedTransducer::deleteSymbols() {
 		for (wchar_t * s : symbolToString) {
 			delete[] s;
 		}
 	}
 	
+	UnweightedTransducer::~UnweightedTransducer() {
+		deleteSymbols();
+	}
+	
 	bool UnweightedTransducer::prepare(Configuration * configuration, const wchar_t * input, size_t inputLen) const {
 		configuration->stackDepth = 0;
 		configuration->flagDepth = 0;
diff --git a/libvoikko/src/fst/UnweightedTransducer.hpp b/libvoikko/src/fst/UnweightedTransducer.hpp
index 7435359..93eddc1 100644
--- a/libvoikko/src/fst/UnweightedTransducer.hpp
+++ b/libvoikko/src/fst/UnweightedTransducer.hpp
@@ -46,6 +46,9 @@ namespace libvoikko { namespace fst {
 			uint16_t firstMultiChar;
 			uint16_t unknownSymbolOrdinal;
 			void byteSwapTransducer(void *& mapPtr, size_t fileLength);
+			void load();
+			void checkTransitions(size_t cellCount) const;
+			void deleteSymbols();
 		public:
 			explicit UnweightedTransducer(const char * filePath);
 			~UnweightedTransducer();
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 0df9601..78b00d5 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -133,12 +133,26 @@ namespace libvoikko { namespace fst {
 			DEBUG(filePath);
 			throw setup::DictionaryException("Weighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+		byteSwapped = false;
+		try {
+			load();
+		}
+		catch (setup::DictionaryException & e) {
+			deleteSymbols();
+			terminate();
+			throw;
+		}
+	}
+	
+	void WeightedTransducer::load() {
+		bool needsByteSwapping = checkNeedForByteSwapping(static_cast<char *>(map));
 		if (!isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected weighted but got unweighted transducer");
 		}
-		if (byteSwapped) {
+		size_t cellCount = checkSymbolTable(needsByteSwapping, sizeof(WeightedTransition));
+		if (needsByteSwapping) {
 			byteSwapTransducer(map, fileLength);
+			byteSwapped = true;
 		}
 		char * filePtr = static_cast<char *>(map);
 		
@@ -156,6 +170,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Symbol of the transducer is not valid UTF-8");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
@@ -191,14 +208,50 @@ namespace libvoikko { namespace fst {
 			}
 		}
 		transitionStart = reinterpret_cast<WeightedTransition *>(filePtr);
+		checkTransitions(cellCount);
 	}
 	
-	WeightedTransducer::~WeightedTransducer() {
+	void WeightedTransducer::checkTransitions(size_t cellCount) const {
+		enum CellType { TRANSITION, STATE_HEAD, OVERFLOW_CELL };
+		vector<char> cellTypes(cellCount, TRANSITION);
+		for (size_t state = 0; state < cellCount; ) {
+			cellTypes[state] = STATE_HEAD;
+			size_t stateLength = transitionStart[state].moreTransitions + 1;
+			if (stateLength == 256 && state + 1 < cellCount) {
+				cellTypes[state + 1] = OVERFLOW_CELL;
+				uint32_t moreTransitions = reinterpret_cast<WeightedOverflowCell *>(transitionStart + state + 1)->moreTransitions;
+				if (moreTransitions < 255 || moreTransitions >= cellCount) {
+					throw setup::DictionaryException("Invalid number of transitions in transducer");
+				}
+				stateLength = moreTransitions + 2;
+			}
+			if (stateLength > cellCount - state) {
+				throw setup::DictionaryException("Transition table of the transducer is incomplete");
+			}
+			state += stateLength;
+		}
+		for (size_t i = 0; i < cellCount; i++) {
+			const WeightedTransition * t = transitionStart + i;
+			if (cellTypes[i] == OVERFLOW_CELL || t->symIn == 0xFFFFFFFF) {
+				continue;
+			}
+			if (t->symOut >= symbolToString.size() || t->targetState >= cellCount ||
+			    cellTypes[t->targetState] != STATE_HEAD) {
+				throw setup::DictionaryException("Invalid transition in transducer");
+			}
+		}
+	}
+	
+	void WeightedTransducer::deleteSymbols() {
 		for (wchar_t * s : symbolToString) {
 			delete[] s;
 		}
 	}
 	
+	WeightedTransducer::~WeightedTransducer() {
+		deleteSymbols();
+	}
+	
 	bool WeightedTransducer::prepare(WeightedConfiguration * configuration, const wchar_t * input, size_t inputLen) const {
 		configuration->stackDepth = 0;
 		configuration->flagDepth = 0;
diff --git a/libvoikko/src/fst/WeightedTransducer.hpp b/libvoikko/src/fst/WeightedTransducer.hpp
index ded5e29..a42a9e8 100644
--- a/libvoikko/src/fst/WeightedTransducer.hpp
+++ b/libvoikko/src/fst/WeightedTransducer.hpp
@@ -44,6 +44,9 @@ namespace libvoikko { namespace fst {
 			std::vector<size_t> symbolStringLength;
 			uint16_t firstMultiChar;
 			void byteSwapTransducer(void *& mapPtr, size_t fileLength);
+			void load();
+			void checkTransitions(size_t cellCount) const;
+			void deleteSymbols();
 		public:
 			explicit WeightedTransducer(const char * filePath);
 			~WeightedTransducer();
-- 
2.43.0


From f76e07134d6862e1c3720d3a993975de2d997361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:40 +0000
Subject: [PATCH 23/38] fix: suggestion generator was deleted without releasing
 its resources

---
 libvoikko/src/setup/setup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index 78851b7..f4679e7 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -115,6 +115,7 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
+			options->suggestionGenerator->terminate();
 			delete options->suggestionGenerator;
 			options->suggestionGenerator =
 				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
@@ -225,8 +226,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From c67a128837c2a9e0ca8fb030e458404fd07832a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:40 +0000
Subject: [PATCH 24/38] fix: hyphenation crashed with analyses that have no
 STRUCTURE

---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
index 9a4211c..991c0b6 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
@@ -290,6 +290,10 @@ void AnalyzerToFinnishHyphenatorAdapter::interpretAnalysis(const Analysis * anal
 	const wchar_t * structure = analysis->getValue(Analysis::Key::STRUCTURE);
 	const wchar_t * structurePtr = structure;
 	memset(buffer, ' ', len);
+	if (!structure) {
+		// the analyzer does not provide information about compound borders
+		return;
+	}
 	if (*structurePtr == L'=') {
 		structurePtr++;
 	}
-- 
2.43.0


From df18153a3efa2736fb8fef9ad9d9402a3a7896ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:40 +0000
Subject: [PATCH 25/38] fix: unreadable HFST dictionaries killed the process

---
 libvoikko/src/morphology/HfstAnalyzer.cpp  | 12 ++++++++++--
 libvoikko/src/setup/V3DictionaryLoader.cpp |  6 +++++-
 libvoikko/src/spellchecker/HfstSpeller.cpp |  7 ++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/morphology/HfstAnalyzer.cpp b/libvoikko/src/morphology/HfstAnalyzer.cpp
index e842bc5..c1f51ef 100644
--- a/libvoikko/src/morphology/HfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/HfstAnalyzer.cpp
@@ -45,8 +45,16 @@ HfstAnalyzer::HfstAnalyzer(const string& s) {
 		return;
 	}
 	FILE *fd = fopen(s.c_str(), "rb");
-	t = new hfst_ospell::Transducer(fd);
-
+	if (!fd) {
+		throw setup::DictionaryException("HFST morphology could not be read");
+	}
+	try {
+		t = new hfst_ospell::Transducer(fd);
+	}
+	catch (hfst_ospell::OspellException&) {
+		fclose(fd);
+		throw setup::DictionaryException("HFST morphology could not be read");
+	}
 }
 
 list<Analysis *> * HfstAnalyzer::analyze(const wchar_t * word, size_t wlen, bool fullMorphology) {
diff --git a/libvoikko/src/setup/V3DictionaryLoader.cpp b/libvoikko/src/setup/V3DictionaryLoader.cpp
index 3024766..b72a64e 100644
--- a/libvoikko/src/setup/V3DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V3DictionaryLoader.cpp
@@ -65,7 +65,11 @@ void V3DictionaryLoader::findDictionaries(const string & path) {
 			try {
 				speller->read_zhfst(fullPath.c_str());
 			}
-			catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+			catch (hfst_ospell::ZHfstException&) {
+				delete speller;
+				continue; // broken dictionary
+			}
+			catch (hfst_ospell::OspellException&) {
 				delete speller;
 				continue; // broken dictionary
 			}
diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 8b90407..b335777 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -49,7 +49,12 @@ HfstSpeller::HfstSpeller(const string & zhfstFileName, VoikkoHandle * voikkoOpti
 	try {
 		speller->read_zhfst(zhfstFileName.c_str());
 	}
-	catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+	catch (hfst_ospell::ZHfstException&) {
+		delete speller;
+		throw setup::DictionaryException("Error reading ZHFST speller");
+	}
+	catch (hfst_ospell::OspellException&) {
+		delete speller;
 		throw setup::DictionaryException("Error reading ZHFST speller");
 	}
 }
-- 
2.43.0


From 461e14e03fa30c0d610596c64e5f2e3ade8f7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:50 +0000
Subject: [PATCH 26/38] fix: voikkospell lost output when there were more
 threads than blocks of words

At the end of the input the tool joined threads starting from the next
free one, which had never been started if the input was shorter than
500 words for each thread.
---
 libvoikko/src/tools/voikkospell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index a79e248..92eff1d 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -216,6 +216,8 @@ static void handleWordMultiThread(const wchar_t * word) {
 static void finishProcessing() {
 	#ifdef HAVE_PTHREAD
 		queueNextBlock();
+		// start from the oldest block, there may be unused threads
+		nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
 		while (nThreadsInUse > 0) {
 			cleanupThread();
 			nextThread = (nextThread + 1) % threadCount;
-- 
2.43.0


From 7826629531a1da1466b8e43e2c0f96135049e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:50 +0000
Subject: [PATCH 27/38] fix: voikkogc -n printed line number 0 for every line

---
 libvoikko/src/tools/voikkogc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/tools/voikkogc.cpp b/libvoikko/src/tools/voikkogc.cpp
index ed558c7..5c8e8e4 100644
--- a/libvoikko/src/tools/voikkogc.cpp
+++ b/libvoikko/src/tools/voikkogc.cpp
@@ -250,6 +250,7 @@ int main(int argc, char ** argv) {
 
 	std::string utf8_line;
 	while (std::getline(std::cin, utf8_line)) {
+		lineNumber++;
 		if (utf8_line.empty()) continue;
 
 		const char * src = utf8_line.c_str();
-- 
2.43.0


From c1d17c07557cd2e6743bdc121dea40541e535195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 28/38] fix: Python module crashed when hyphenating too long
 words

---
 libvoikko/python/libvoikko.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cf5fd76..10e89de 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -795,6 +795,8 @@ class Voikko(object):
             return word
         cHyphenated = self.__lib.voikkoInsertHyphensCstr(
             self.__handle, word.encode("UTF-8"), separator.encode("UTF-8"), _boolToInt(allowContextChanges))
+        if not bool(cHyphenated):
+            return word
         hyphenated = string_at(cHyphenated)
         self.__lib.voikkoFreeCstr(cHyphenated)
         return unicode_str(hyphenated, "UTF-8")
-- 
2.43.0


From b3946a63eab79c129f3dee32ce4206c67536164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 29/38] fix: Python module crashed when the language of grammar
 error descriptions was empty

---
 libvoikko/python/libvoikko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index 10e89de..fed96ba 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -611,7 +611,7 @@ class Voikko(object):
     def __getGrammarError(self, cGrammarError, language):
         cErrorShortDescription = self.__lib.voikkoGetGrammarErrorShortDescription(
             cGrammarError,
-            _anyStringToUtf8(language)
+            _anyStringToUtf8(language) or b""
         )
         shortDescription = unicode_str(string_at(cErrorShortDescription), "UTF-8")
         self.__lib.voikkoFreeErrorMessageCstr(cErrorShortDescription)
-- 
2.43.0


From d0c80195a8b6e2f27521af43c51fef4d819daf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 30/38] fix: dictionaries were not ordered consistently in the
 Python module

---
 libvoikko/python/libvoikko.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index fed96ba..65724fc 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -111,13 +111,10 @@ class Dictionary:
     def __lt__(self, other):
         if not isinstance(other, Dictionary):
             return False
-        if self.language < other.language:
-            return True
-        if self.script < other.script:
-            return True
-        if self.variant < other.variant:
-            return True
-        return self.description < other.description
+        return (
+            (self.language, self.script, self.variant, self.description) <
+            (other.language, other.script, other.variant, other.description)
+        )
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 0bc5789b917677347086b3d28a69210137ea06d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 31/38] fix: Java module threw NullPointerException when
 hyphenating too long words

---
 .../java/org/puimula/libvoikko/Voikko.java    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 0c60cf0..cd26ed9 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -401,19 +401,25 @@ public class Voikko {
     public synchronized String getHyphenationPattern(String word) {
         requireValidHandle();
         if (!isValidInput(word)) {
-            // return string of spaces
-            StringBuilder sb = new StringBuilder();
-            for (int i = 0; i < word.length(); i++) {
-                sb.append(" ");
-            }
-            return sb.toString();
+            return spaces(word.length());
         }
         ByteArray cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
+        if (cPattern == null) {
+            return spaces(word.length());
+        }
         String pattern = cPattern.toString();
         getLib().voikkoFreeCstr(cPattern);
         return pattern;
     }
 
+    private static String spaces(int count) {
+        StringBuilder sb = new StringBuilder();
+        for (int i = 0; i < count; i++) {
+            sb.append(" ");
+        }
+        return sb.toString();
+    }
+
     /**
      * @deprecated Use the function with explicit separator instead
      * @param word
@@ -440,6 +446,9 @@ public class Voikko {
         }
         ByteArray cHyphenated = getLib().voikkoInsertHyphensCstr(
                 handle, s2n(word), s2n(separator), boolToInt(allowContextChanges));
+        if (cHyphenated == null) {
+            return word;
+        }
         String hyphenated = cHyphenated.toString();
         getLib().voikkoFreeCstr(cHyphenated);
         return hyphenated;
-- 
2.43.0


From 30b1d227c6a1594e53c3f906b726838a09b4ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:21 +0000
Subject: [PATCH 32/38] fix: Java module gave wrong positions after characters
 outside of the BMP

The library counts Unicode characters, Java strings consist of UTF-16 code
units: sentences, positions of grammar errors and hyphenation patterns were
shifted after each supplementary character.
---
 .../java/org/puimula/libvoikko/Voikko.java    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index cd26ed9..70c0a47 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -243,17 +243,18 @@ public class Voikko {
             if (cError == null) {
                 return;
             }
-            errorList.add(getGrammarError(cError, offset, language));
+            errorList.add(getGrammarError(cError, paragraph, offset, language));
             lib.voikkoFreeGrammarError(cError);
             skipErrors++;
         }
     }
 
-    private GrammarError getGrammarError(VoikkoGrammarError cError, int offset, String language) {
+    private GrammarError getGrammarError(VoikkoGrammarError cError, String paragraph, int offset, String language) {
         final Libvoikko lib = getLib();
         int errorCode = lib.voikkoGetGrammarErrorCode(cError);
-        int startPos = lib.voikkoGetGrammarErrorStartPos(cError).intValue();
-        int errorLength = lib.voikkoGetGrammarErrorLength(cError).intValue();
+        // The library counts Unicode characters, strings are indexed by UTF-16 code units
+        int startPos = paragraph.offsetByCodePoints(0, lib.voikkoGetGrammarErrorStartPos(cError).intValue());
+        int errorLength = paragraph.offsetByCodePoints(startPos, lib.voikkoGetGrammarErrorLength(cError).intValue()) - startPos;
         Pointer cSuggestions = lib.voikkoGetGrammarErrorSuggestions(cError);
         List<String> suggestions;
         if (cSuggestions == null) {
@@ -377,7 +378,7 @@ public class Voikko {
         SizeTByReference sentenceLenByRef = new SizeTByReference();
         while (textLen > 0) {
             int sentenceTypeInt = lib.voikkoNextSentenceStartCstr(handle, textBytes, new SizeT(textLen), sentenceLenByRef);
-            int sentenceLen = sentenceLenByRef.getValue().intValue();
+            int sentenceLen = text.offsetByCodePoints(0, sentenceLenByRef.getValue().intValue());
             SentenceStartType sentenceType = SentenceStartType.values()[sentenceTypeInt];
             String tokenText = text.substring(0, sentenceLen);
             result.add(new Sentence(tokenText, sentenceType));
@@ -409,7 +410,14 @@ public class Voikko {
         }
         String pattern = cPattern.toString();
         getLib().voikkoFreeCstr(cPattern);
-        return pattern;
+        // The pattern has one character for each Unicode character, there should be one for each UTF-16 code unit
+        StringBuilder sb = new StringBuilder(pattern);
+        for (int i = 0; i < word.length(); i = word.offsetByCodePoints(i, 1)) {
+            if (Character.isSupplementaryCodePoint(word.codePointAt(i))) {
+                sb.insert(i + 1, ' ');
+            }
+        }
+        return sb.toString();
     }
 
     private static String spaces(int count) {
-- 
2.43.0


From 251fedce40b01319bd1ba7ea40b52b658498e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:02 +0000
Subject: [PATCH 33/38] fix: consonant gradation of words shorter than three
 characters raised IndexError

The length was tested after the last two characters had been looked at, so
inflectWord failed for an empty stem or a stem of one consonant instead of
returning no forms.
---
 tools/pylib/voikkoinfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pylib/voikkoinfl.py b/tools/pylib/voikkoinfl.py
index a003b6f..33ece35 100644
--- a/tools/pylib/voikkoinfl.py
+++ b/tools/pylib/voikkoinfl.py
@@ -135,7 +135,7 @@ def __apply_gradation(word, grad_type):
 	if grad_type == '-':
 		return (word, word)
 	
-	if voikkoutils.is_consonant(word[-1]) and not voikkoutils.is_consonant(word[-2]) and len(word) >= 3:
+	if len(word) >= 3 and voikkoutils.is_consonant(word[-1]) and not voikkoutils.is_consonant(word[-2]):
 		if word[-4:-2] == 'ng':
 			return (word[:-4]+'nk'+word[-2:], word)
 		# uvu/yvy->uku/yky not possible?
-- 
2.43.0


From 11d5328ae9fb18f07200f739b1f9a42f2cdc3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:02 +0000
Subject: [PATCH 34/38] fix: internal mark of a disappeared consonant left in
 some inflected forms

Forms whose vowel harmony depends on the stem (subst_tO, verbi_AjAA, ... and the
partitive of class meri) were returned with the internal character $ instead of
an apostrophe or nothing.
---
 tools/pylib/voikkoinfl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/pylib/voikkoinfl.py b/tools/pylib/voikkoinfl.py
index 33ece35..20b69fa 100644
--- a/tools/pylib/voikkoinfl.py
+++ b/tools/pylib/voikkoinfl.py
@@ -464,9 +464,11 @@ def inflectWordWithType(word, inflection_type, infclass, gradclass, vowel_type =
 			final_base = _removeStructure(word_stripped_base)
 			if vowel_harmony_rule != None:
 				if vowel_harmony_rule(word_stripped_base) == voikkoutils.VOWEL_FRONT:
-					infl.inflectedWord = final_base + __convert_tv_ev(affix)
+					infl.inflectedWord = _replace_conditional_aposthrope(
+					                     final_base + __convert_tv_ev(affix))
 				else:
-					infl.inflectedWord = final_base + affix
+					infl.inflectedWord = _replace_conditional_aposthrope(
+					                     final_base + affix)
 				inflection_list.append(infl)
 				continue
 			
-- 
2.43.0


From 655a3366072216c322f2fd524eba83c8649804bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:46 +0000
Subject: [PATCH 35/38] fix: JavaScript module gave wrong texts and positions
 after characters outside of the BMP

---
 libvoikko/js/libvoikko_api.js | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index a886f20..20e4cd5 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -34,6 +34,16 @@ var isValidInput = function(word) {
 	return word.indexOf('\0') == -1;
 }
 
+// Returns the part of text that begins at index start and has charCount characters. Libvoikko
+// counts characters, of which those outside of the BMP take two code units in JavaScript strings.
+var substringOfChars = function(text, start, charCount) {
+	var end = start;
+	for (; charCount > 0 && end < text.length; charCount--) {
+		end += text.codePointAt(end) > 0xFFFF ? 2 : 1;
+	}
+	return text.substring(start, end);
+};
+
 Module["onRuntimeInitialized"] = function() {
 	if ("onLoad" in Module) {
 		Module["onLoad"](Module);
@@ -67,7 +77,7 @@ Module["init"] = function(lang, path) {
 			var tokenTypeInt = c_nextTokenCstr(handle, textBytesPosition, bytesLen, tokenLenByRef);
 			var tokenLen = getValue(tokenLenByRef, "i32");
 			var tokenType = tokenTypes[tokenTypeInt];
-			var tokenText = text.substring(textStart, textStart + tokenLen);
+			var tokenText = substringOfChars(text, textStart, tokenLen);
 			textStart += tokenText.length;
 			var tokenBytes = lengthBytesUTF8(tokenText);
 			result.push({type: tokenType, text: tokenText});
@@ -90,8 +100,15 @@ Module["init"] = function(lang, path) {
 			return sb;
 		}
 		var cPattern = c_hyphenateCstr(handle, word);
-		var pattern = UTF8ToString(cPattern);
+		var charPattern = UTF8ToString(cPattern);
 		c_freeCstr(cPattern);
+		var pattern = "";
+		for (var i = 0; i < charPattern.length; i++) {
+			pattern += charPattern.charAt(i);
+			if (word.codePointAt(pattern.length - 1) > 0xFFFF) {
+				pattern += " ";
+			}
+		}
 		return pattern;
 	};
 	
@@ -125,10 +142,10 @@ Module["init"] = function(lang, path) {
 		}
 	};
 	
-	var getGrammarError = function(cError, offset, language) {
+	var getGrammarError = function(cError, paragraph, offset, language) {
 		var errorCode = c_grammarErrorCode(cError);
-		var startPos = c_grammarErrorStartPos(cError);
-		var errorLength = c_grammarErrorLength(cError);
+		var startPos = substringOfChars(paragraph, 0, c_grammarErrorStartPos(cError)).length;
+		var errorLength = substringOfChars(paragraph, startPos, c_grammarErrorLength(cError)).length;
 		var cSuggestions = c_grammarErrorSuggestions(cError);
 		var suggestions = [];
 		if (cSuggestions) {
@@ -153,7 +170,7 @@ Module["init"] = function(lang, path) {
 			if (!cError) {
 				return;
 			}
-			errorList.push(getGrammarError(cError, offset, language));
+			errorList.push(getGrammarError(cError, paragraph, offset, language));
 			c_freeGrammarError(cError);
 			skipErrors++;
 		}
@@ -286,9 +303,9 @@ Module["init"] = function(lang, path) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
 				var sentenceLen = getValue(sentenceLenByRef, "i32");
 				var sentenceType = sentenceTypes[sentenceTypeInt];
-				var sentenceText = text.substring(0, sentenceLen);
+				var sentenceText = substringOfChars(text, 0, sentenceLen);
 				result.push({"text": sentenceText, "nextStartType": sentenceType});
-				text = text.substring(sentenceLen);
+				text = text.substring(sentenceText.length);
 				var sentenceLenBytes = lengthBytesUTF8(sentenceText);
 				textBytesPtr += sentenceLenBytes;
 				textLen -= sentenceLenBytes;
-- 
2.43.0


From 5cc2f37bfec6fdf9515868ffb094dc239415a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:46 +0000
Subject: [PATCH 36/38] fix: JavaScript module lost too long words when
 hyphenating

---
 libvoikko/js/libvoikko_api.js | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index 20e4cd5..789e902 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -91,15 +91,15 @@ Module["init"] = function(lang, path) {
 	
 	var getHyphenationPattern = function(word) {
 		requireValidHandle();
-		if (!isValidInput(word)) {
-			// return string of spaces
+		var cPattern = isValidInput(word) ? c_hyphenateCstr(handle, word) : 0;
+		if (!cPattern) {
+			// invalid or too long word: return string of spaces
 			var sb = "";
 			for (var i = 0; i < word.length; i++) {
 				sb += " ";
 			}
 			return sb;
 		}
-		var cPattern = c_hyphenateCstr(handle, word);
 		var charPattern = UTF8ToString(cPattern);
 		c_freeCstr(cPattern);
 		var pattern = "";
@@ -329,6 +329,9 @@ Module["init"] = function(lang, path) {
 				return word;
 			}
 			var cHyphenated = c_insertHyphensCstr(handle, word, separator, boolToInt(allowContextChanges));
+			if (!cHyphenated) {
+				return word;
+			}
 			var hyphenated = UTF8ToString(cHyphenated);
 			c_freeCstr(cHyphenated);
 			return hyphenated;
-- 
2.43.0


From 8c46000637831666bf42509558d3f645f30956f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:46 +0000
Subject: [PATCH 37/38] fix: Kotus gradation class of av2 words was looked for
 in the wrong place

---
 tools/pylib/voikkoinfl.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/tools/pylib/voikkoinfl.py b/tools/pylib/voikkoinfl.py
index 20b69fa..eaffcb8 100644
--- a/tools/pylib/voikkoinfl.py
+++ b/tools/pylib/voikkoinfl.py
@@ -62,7 +62,7 @@ class InflectionType:
 		if not grad_type in ["av1", "av2", "av3", "av4", "av5", "av6"]:
 			return ""
 		word = self.removeSuffix(word)
-		if len(word) == 0: return ""
+		if len(word) < 3: return ""
 		if voikkoutils.is_consonant(word[-1]) and not voikkoutils.is_consonant(word[-2]):
 			if word[-4:-2] == 'ng': return 'G'
 			if word[-4:-2] == 'mm': return 'H'
@@ -89,18 +89,18 @@ class InflectionType:
 			if word[-3:] == 'uku': return 'M'
 			if word[-3:] == 'yky': return 'M'
 		if grad_type == 'av2':
-			if word[-4:-2] == 'ng': return 'G'
-			if word[-4:-2] == 'mm': return 'H'
-			if word[-4:-2] == 'nn': return 'J'
-			if word[-4:-2] == 'll': return 'I'
-			if word[-4:-2] == 'rr': return 'K'
-			if word[-3] == 'd': return 'F'
-			if word[-3] == 't': return 'C'
-			if word[-3] == 'k': return 'A'
-			if word[-3] == 'p': return 'B'
-			if word[-3] == 'b': return 'O' # Unofficial, not in Kotus
-			if word[-3] == 'g': return 'P' # Unofficial, not in Kotus
-			if word[-3] == 'v': return 'E'
+			if word[-3:-1] == 'ng': return 'G'
+			if word[-3:-1] == 'mm': return 'H'
+			if word[-3:-1] == 'nn': return 'J'
+			if word[-3:-1] == 'll': return 'I'
+			if word[-3:-1] == 'rr': return 'K'
+			if word[-2] == 'd': return 'F'
+			if word[-2] == 't': return 'C'
+			if word[-2] == 'k': return 'A'
+			if word[-2] == 'p': return 'B'
+			if word[-2] == 'b': return 'O' # Unofficial, not in Kotus
+			if word[-2] == 'g': return 'P' # Unofficial, not in Kotus
+			if word[-2] == 'v': return 'E'
 		if grad_type == 'av3': # k -> j
 			if word[-2] == 'k': return 'L'
 		if grad_type == 'av4': # j -> k
-- 
2.43.0


From 3570bd79d79e447009313f45ff28026797ad59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:55 +0000
Subject: [PATCH 38/38] fix: any file with a name of five characters was opened
 as a ZHFST speller

---
 libvoikko/src/setup/V3DictionaryLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/V3DictionaryLoader.cpp b/libvoikko/src/setup/V3DictionaryLoader.cpp
index b72a64e..e9a8798 100644
--- a/libvoikko/src/setup/V3DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V3DictionaryLoader.cpp
@@ -53,7 +53,7 @@ void V3DictionaryLoader::findDictionaries(const string & path) {
 	list<string> subDirectories = getListOfSubentries(mainPath);
 	for (list<string>::iterator i = subDirectories.begin(); i != subDirectories.end(); ++i) {
 		string dirName = *i;
-		if (dirName.find(".zhfst") + 6 == dirName.length()) {
+		if (dirName.length() >= 6 && dirName.compare(dirName.length() - 6, 6, ".zhfst") == 0) {
 			string fullPath = mainPath + "/" + dirName;
 			BackendProperties morBackend("null", fullPath, false);
 			BackendProperties spellBackend("hfst", true);
-- 
2.43.0

