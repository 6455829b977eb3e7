#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts can be edited in a readable form)."""
import json, pathlib
P = []
def at(f):
    return f if f.startswith(("voikko-fi", "tools/", "data/")) else "libvoikko/" + f


def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=[at(f) for f in files],
                               state=[dict(name=n, meaning=m, where=at(w)) for n, m, w in state],
                               mechanism=[dict(name=n, where=at(w)) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Tokens partition the text and are classified by their characters",
  """Repeatedly asking for the next token of any text yields non-empty tokens that together are exactly the text, ending with "none" only
  at its end. Runs of white space are one token; words follow the documented rules for apostrophes, colons, hyphens, dots (a trailing dot
  belongs to the word only with the ignore-dot option), decimal commas, URLs and email addresses; every other character is a punctuation
  or unknown token of its own ("..." is one). The answer depends only on the characters up to the given length and on the ignore-dot option.""",
  ["inputs", "configurations"], "every text of letters, digits, punctuation, white space and other characters, every length argument, both values of ignore-dot",
  "The unit tests tokenise about a dozen fixed strings; the rules interact over unbounded look-ahead (addresses) and every adjacent pair of character classes.",
  ["src/tokenizer/Tokenizer.cpp", "src/tokenizer/interface.cpp", "src/character/charset.cpp", "src/character/SimpleChar.cpp"],
  [("word_length / findUrlOrEmail / nextToken scanners", "src/tokenizer/Tokenizer.cpp"), ("get_char_type", "src/character/charset.cpp")],
  observe=["voikkoNextTokenUcs4", "voikkoNextTokenCstr"])

p("C02", "Sentence boundaries: sentences partition the text at the right tokens",
  """Repeatedly asking for the next sentence start splits any text into consecutive non-empty sentences, the last one reported as "none".
  A boundary comes after a dot, ellipsis, "!", "?" or ":" (and the white space following it) that is outside a quotation, or inside one that has been
  closed since without a comma right after the closing mark; it is "possible" rather than "probable" exactly when the dot may belong to an initial, an ordinal number or a
  word the dictionary accepts with the dot, after an ellipsis or colon, after "!" or "?" inside a quotation, or when a word follows without white space.
  The ignore-dot option makes no difference.""",
  ["inputs", "configurations"], "every text and length argument, with any dictionary deciding which words may end with a dot",
  "Tests split a handful of fixed texts; the state (end found, quotation, dot word) depends on arbitrary token sequences and on the dictionary.",
  ["src/sentence/Sentence.cpp", "src/sentence/interface.cpp", "src/tokenizer/Tokenizer.cpp"],
  [("Sentence::next state machine", "src/sentence/Sentence.cpp")], observe=["voikkoNextSentenceStartUcs4", "voikkoNextSentenceStartCstr"])

p("C03", "Spelling verdict follows from the dictionary and the options alone",
  """A word is accepted exactly when the dictionary accepts it as written, or one of the option-controlled relaxations applies: ignored numbers,
  ignored upper case, ignored non-words, initial or full capitals, a trailing dot with ignore-dot, missing leading or trailing hyphens, extra
  hyphens. Letter case must otherwise match the case pattern the dictionary requires for that word, hyphens inside a word may appear only where
  Finnish compound rules allow or require them, soft hyphens only at hyphenation points, the empty word is accepted and a word of more than 255
  characters is rejected.""",
  ["inputs", "configurations", "programs"], "every word, every combination of spelling options, every dictionary",
  "voikkotest checks a few thousand words under default options with one lexicon; option combinations times case patterns times hyphen/dot/digit positions are not sampled.",
  ["src/spellchecker/spell.cpp", "src/spellchecker/FinnishSpellerTweaksWrapper.cpp", "src/spellchecker/AnalyzerToSpellerAdapter.cpp",
   "src/spellchecker/SpellUtils.cpp", "src/spellchecker/VfstSpeller.cpp", "src/utils/utils.cpp"],
  [("voikkoSpellUcs4 and hyphenAwareSpell", "src/spellchecker/spell.cpp"), ("matchWordAndAnalysis", "src/spellchecker/SpellUtils.cpp"),
   ("FinnishSpellerTweaksWrapper::spell", "src/spellchecker/FinnishSpellerTweaksWrapper.cpp")], observe=["voikkoSpellUcs4", "voikkoSpellCstr"])

p("C04", "Answers never depend on earlier calls: caches and searches leave no trace",
  """For any history of calls on a handle (spelling, suggestions, hyphenation, analysis, tokens, sentences, grammar, option and cache-size
  changes, in any order, including searches that were cut short by their internal limits), each answer equals the answer a freshly
  initialised handle with the same current options would give. Other handles, open or terminated, with the same or another dictionary,
  make no difference.""",
  ["histories", "configurations"], "all finite sequences of API calls over any number of handles",
  "Tests use fresh handles or call one function repeatedly; cache coherence under option changes and abandoned searches is a property of all histories.",
  ["src/spellchecker/SpellerCache.cpp", "src/spellchecker/spell.cpp", "src/setup/setup.cpp", "src/grammar/GcCache.cpp", "src/grammar/GrammarChecker.cpp",
   "src/fst/UnweightedTransducer.cpp", "src/fst/WeightedTransducer.cpp", "src/fst/Configuration.cpp"],
  [("cache reset on option change", "src/setup/setup.cpp"), ("cache lookup by full word", "src/spellchecker/SpellerCache.cpp"),
   ("paragraph comparison", "src/grammar/GrammarChecker.cpp"), ("prepare() resets the search configuration", "src/fst")],
  state=[("spellerCache", "words recently accepted", "src/spellchecker/SpellerCache.hpp"), ("gc_cache", "errors of the last paragraph", "src/grammar/GcCache.hpp"),
         ("flag values", "flag diacritics of the running search", "src/fst/Configuration.hpp")],
  observe=["every function of voikko.h that takes a handle"])

p("C05", "Suggestions are valid corrections, bounded, ordered and correctly cased",
  """Every suggestion is a word (or a pair of words) that the spell checker itself accepts when the options for capital letters are at their
  defaults; there are at most five, ordered from the best priority to the worst as defined by the order of the edits tried and the quality of the
  result (word class, inflectional case, number of compound parts, letter case); a word of the dictionary in its proper letter case gets itself as
  the only suggestion, and words that are empty, one character long (two with ignore-dot) after normalisation, or too long get none. Exactly the edits of the selected strategy (typing errors or
  OCR) are tried in their documented order within the cost budget, capitalisation and typographic apostrophes/hyphens of the input are carried
  over, and with ignore-dot a trailing dot is kept.""",
  ["inputs", "configurations", "programs"], "every misspelled word, both strategies, every option setting, every dictionary",
  "Tests check a few dozen words against one lexicon; budget accounting, ordering and casing hold over all inputs and lexicons.",
  ["src/spellchecker/suggestions.cpp", "src/spellchecker/suggestion/SuggestionStrategy.cpp", "src/spellchecker/suggestion/SuggestionStatus.cpp",
   "src/spellchecker/suggestion/SuggestionStrategyTyping.cpp", "src/spellchecker/suggestion/SuggestionStrategyOcr.cpp", "src/spellchecker/SpellWithPriority.cpp"],
  [("SuggestionStatus cost accounting and sorting", "src/spellchecker/suggestion/SuggestionStatus.cpp"), ("generators", "src/spellchecker/suggestion")],
  observe=["voikkoSuggestUcs4", "voikkoSuggestCstr"])

p("C06", "Hyphenation patterns are well formed and allowed by every analysis",
  """For any word of at most 255 characters the hyphenation pattern has exactly one symbol per character, never starts with a break, uses "=" only on
  a hyphen or apostrophe that disappears at the line break, and marks a break only where all considered analyses of the word agree; compound borders are breaks and
  syllables are split by the Finnish rules. The options no-ugly-hyphenation, hyphenate-unknown-words, minimum word length and ignore-dot change it only as
  documented (no break inside a part shorter than the minimum, none in unknown words when disabled).""",
  ["inputs", "configurations", "programs"], "every word, dictionary and setting of the hyphenation options",
  "The hyphenation test suite covers fixed words under default options with one lexicon.",
  ["src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp", "src/hyphenator/interface.cpp", "src/setup/setup.cpp"],
  [("splitCompounds / interpretAnalysis / intersectHyphenations / ruleHyphenation", "src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp")],
  observe=["voikkoHyphenateUcs4", "voikkoHyphenateCstr"])

p("C07", "Inserting hyphens changes the word only at the pattern's break points",
  """Inserting a separator into a word gives the word with the separator placed before exactly the characters marked as breaks by its hyphenation
  pattern. A hyphen character marked as disappearing at the break keeps its place and no separator is added; any other character so marked is replaced by the separator if
  context changes are allowed, and otherwise kept with no separator there. Removing the separators again gives back the word (but for replaced characters), for every
  separator string and every word valid in UTF-8; words of more than 255 bytes and byte strings that are not valid UTF-8 are refused.""",
  ["inputs", "configurations"], "every word, separator (empty, multi-byte, longer than one character) and context flag",
  "One or two examples in the unit tests.",
  ["src/hyphenator/interface.cpp"], [("voikkoInsertHyphensCstr", "src/hyphenator/interface.cpp")], observe=["voikkoInsertHyphensCstr"])

p("C08", "Dictionary lookup returns exactly the paths of the transducer",
  """Looking up a word in a compiled transducer (weighted or not, of either byte order, with any number of transitions per state) yields exactly the outputs of its
  accepting paths whose input is the word and whose flag diacritics are consistent, in transition order, together with the weight of each path; words with characters
  outside the alphabet have none. Epsilon cycles, very many paths or very long outputs end the enumeration early but never crash it, and the
  paths returned are still genuine. A speller given as a transducer accepts exactly its words (and recognises those that need a capital), and an error model suggests exactly the words it makes
  of the input that the speller knows, the lightest five first.""",
  ["programs", "inputs"], "every transducer file in the documented format and every word",
  "Tests use only the transducers of the Finnish lexicon, which exercise few flag combinations and no weights, overflow cells of particular sizes or foreign byte order.",
  ["src/fst/Transducer.cpp", "src/fst/UnweightedTransducer.cpp", "src/fst/WeightedTransducer.cpp", "src/fst/Configuration.cpp", "src/fst/WeightedConfiguration.cpp",
   "src/morphology/VfstAnalyzer.cpp", "src/spellchecker/VfstSpeller.cpp"],
  [("next() depth-first search with backtracking", "src/fst"), ("flagDiacriticCheck", "src/fst/Transducer.cpp"), ("byte order conversion", "src/fst")],
  observe=["voikkoAnalyzeWordUcs4", "voikkoSpellUcs4"])

p("C09", "Morphological analyses render the lexicon's tags faithfully and consistently",
  """Each analysis of a word carries the attributes its lexicon entry encodes: class, number, case, person, mood, tense, participle, possessive,
  comparison, focus particle, negative, base form, word ids and base forms, and the structure. The structure spells the word: it has one letter code
  per character of the word between compound markers "=", with upper case codes exactly where the entry requires capitals and "-" for hyphens; attributes listed as having
  a finite set of values never take a value outside that set; invalid combinations (such as forbidden compound chains, digits in wrong places, or
  misplaced hyphens and case marks) yield no analysis.""",
  ["inputs", "programs"], "every word and every sequence of lexicon tags",
  "voikkotest compares analyses for a fixed list of words of one lexicon.",
  ["src/morphology/FinnishVfstAnalyzer.cpp", "src/morphology/Analysis.cpp", "src/morphology/interface.cpp", "src/morphology/VfstAnalyzer.cpp"],
  [("parseStructure, parseBasicAttributes, parseBaseform, isValidAnalysis, fixStructure", "src/morphology/FinnishVfstAnalyzer.cpp")],
  observe=["voikkoAnalyzeWordUcs4", "voikko_mor_analysis_keys", "voikko_mor_analysis_value_ucs4", "voikkoGetAttributeValues"])

p("C10", "Grammar errors are enumerated completely, once each, in text order",
  """For any paragraph, calling the grammar checker with skip counts 0, 1, 2, ... enumerates a finite list of errors ordered by start position, each lying
  within the text; a query gives the first error of that list that starts at or after the given start position and is preceded in
  the list by at least as many errors as are to be skipped, or none. Repeating any
  query, in any order, interleaved with other paragraphs (also ones that share a prefix or a buffer with the previous one), gives the same error.""",
  ["inputs", "histories"], "every paragraph, start position, skip count and order of queries",
  "Tests enumerate a few paragraphs from the beginning only.",
  ["src/grammar/interface.cpp", "src/grammar/GrammarChecker.cpp", "src/grammar/GcCache.cpp", "src/grammar/CacheEntry.cpp"],
  [("GcCache::appendError ordering", "src/grammar/GcCache.cpp"), ("errorFromCache", "src/grammar/GrammarChecker.cpp")],
  state=[("gc_cache", "errors of the last paragraph", "src/grammar/GcCache.hpp")], observe=["voikkoNextGrammarErrorUcs4", "voikkoNextGrammarErrorCstr"])

p("C11", "Grammar rules flag exactly the texts they describe",
  """For every paragraph the reported errors are exactly those of the documented rules: extra or missing white space around punctuation, repeated words and
  punctuation, foreign quotation marks, wrong capitalisation at the start of and inside a sentence, missing end punctuation, missing or surplus main
  verb, invalid negative-verb and compound-verb combinations, conjunction at the end, and autocorrect phrases, with the documented code, range and corrections. Words that are
  not in the dictionary, quotations, URLs, titles, unfinished paragraphs and bulleted lists suppress rules only as documented by the options.""",
  ["inputs", "configurations"], "every sequence of tokens with any analyses, every combination of the grammar options",
  "Tests have a few dozen fixed sentences; rules interact through sentence and quotation state.",
  ["src/grammar/FinnishRuleEngine.cpp", "src/grammar/FinnishRuleEngine/checks.cpp", "src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp",
   "src/grammar/FinnishRuleEngine/CompoundVerbCheck.cpp", "src/grammar/FinnishRuleEngine/MissingVerbCheck.cpp", "src/grammar/FinnishRuleEngine/NegativeVerbCheck.cpp",
   "src/grammar/FinnishRuleEngine/SidesanaCheck.cpp", "src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp", "src/grammar/FinnishAnalysis.cpp"],
  [("rule engine", "src/grammar/FinnishRuleEngine.cpp")], observe=["voikkoNextGrammarErrorUcs4", "voikkoGetGrammarErrorCode"])

p("C12", "The dictionary chosen and the dictionaries listed follow the search order",
  """Initialising for a language tag selects, among the valid dictionaries in the search path, the one whose language, script and variant match the tag, preferring an earlier
  directory, and the standard variant when no variant is asked for; if none matches, initialisation fails with an
  error text and no handle. Listing returns each available dictionary variant once with its own language, script, variant and description, the default first for its language, and the lists of
  supported languages contain a language exactly when one of its dictionaries provides that capability (ZHFST archives provide spelling only, and come after other dictionaries of their directory).""",
  ["configurations", "inputs"], "every layout of dictionary directories, environment setting and language tag",
  "DictionaryInfoTest covers six layouts under one path.",
  ["src/setup/DictionaryFactory.cpp", "src/setup/V5DictionaryLoader.cpp", "src/setup/DictionaryLoader.cpp", "src/setup/Dictionary.cpp", "src/setup/LanguageTag.cpp", "src/setup/interface.cpp"],
  [("DictionaryFactory::load / findAllAvailable", "src/setup/DictionaryFactory.cpp"), ("LanguageTag::setBcp47", "src/setup/LanguageTag.cpp")],
  observe=["voikkoInit", "voikko_list_dicts", "voikkoListSupported*Languages"])

p("C13", "UTF-8 functions answer exactly as their wide-character counterparts",
  """For every byte string that is valid UTF-8 (non-characters such as U+FFFE aside), each function taking UTF-8 gives the same answer as its wide-character counterpart on the decoded text: same verdicts, same
  suggestions and analyses (encoded), same lengths and positions counted in characters. Words of more than 255 bytes are refused as too long. Byte strings that are not valid UTF-8 are rejected with the documented
  error result of each function and nothing else happens (the token function need only look at the part of a text on which the token depends); only the given number of bytes is looked at.""",
  ["inputs"], "every byte string, also truncated, overlong, surrogate and out-of-range sequences, and texts longer than any internal conversion block",
  "Utf8ApiTest tries a few short words.",
  ["src/utils/StringUtils.cpp", "src/utf8/checked.hpp", "src/spellchecker/spell.cpp", "src/tokenizer/interface.cpp", "src/sentence/interface.cpp", "src/grammar/interface.cpp",
   "src/hyphenator/interface.cpp", "src/morphology/interface.cpp", "src/spellchecker/suggestions.cpp"],
  [("StringUtils::ucs4FromUtf8 / utf8FromUcs4", "src/utils/StringUtils.cpp")], observe=["all *Cstr functions of voikko.h"])

p("C14", "Options take effect exactly as documented, one at a time",
  """Setting a known boolean or integer option returns 1, takes effect on the next call, affects only the behaviour documented for that option and only the handle it was set on, and can
  be undone by setting it back; unknown option numbers return 0 and change nothing. A new handle has the documented default values.""",
  ["histories", "configurations"], "every sequence of option settings interleaved with queries",
  "Tests set a single option, query once and reset it.",
  ["src/setup/setup.cpp", "src/setup/setup.hpp"], [("voikkoSetBooleanOption / voikkoSetIntegerOption", "src/setup/setup.cpp")],
  observe=["voikkoSetBooleanOption", "voikkoSetIntegerOption"])

p("C15", "Broken dictionaries are refused cleanly",
  """Initialisation with missing, empty, truncated, foreign or otherwise malformed files of a dictionary in the VFST format (format 5) fails with a non-empty error text and no handle, or
  ignores the broken dictionary in favour of a valid one; it never crashes, hangs, leaks mapped files or affects handles already open, and a later initialisation with a good dictionary works.
  A damaged file that is accepted all the same is used without reading or writing outside of it.""",
  ["fault_sequences", "configurations"], "every way in which the files of a dictionary can be missing, truncated at any byte, or have a damaged header",
  "Tests have one broken dictionary case.",
  ["src/setup/setup.cpp", "src/setup/V5DictionaryLoader.cpp", "src/setup/DictionaryFactory.cpp", "src/fst/Transducer.cpp", "src/morphology/AnalyzerFactory.cpp", "src/spellchecker/SpellerFactory.cpp"],
  [("DictionaryException handling in voikkoInit", "src/setup/setup.cpp"), ("cookie and size checks", "src/fst/Transducer.cpp")], observe=["voikkoInit", "voikko_list_dicts"])

p("C16", "Command line tools answer every input line, in order, for any thread count",
  """The command line tools print for each input line, in input order, exactly the answer that the library gives for that line under the selected options; the number of
  threads, the cache size and the position of the line make no difference, and lines that cannot be processed are skipped without affecting
  the others.""",
  ["schedules", "inputs", "configurations"], "every input stream, thread count and option combination",
  "The repository's tests run the tools only indirectly and single-threaded.",
  ["src/tools/voikkospell.cpp", "src/tools/voikkohyphenate.cpp", "src/tools/voikkogc.cpp"],
  [("block queue of voikkospell", "src/tools/voikkospell.cpp")], state=[("nextThread, nThreadsInUse, nextBlock", "ring of worker threads", "src/tools/voikkospell.cpp")],
  observe=["stdout of voikkospell, voikkohyphenate, voikkogc"])

p("C17", "The dictionary compiler preserves the meaning of the transducer",
  """Compiling a transducer from its textual form gives a file whose lookups yield exactly the outputs and weights of the source: for every number of symbols, states and transitions, weighted or not,
  and in either byte order, weights being stored as truncated hundredths of the negative logarithm of a probability or thousandths of a logarithmic weight. Malformed input is refused with an error and a non-zero exit.""",
  ["programs"], "every finite transducer in AT&T format", "The build compiles a few fixed lexicons and no test inspects the file.",
  ["src/tools/voikkovfstc.cpp", "src/fst/Transition.hpp", "src/fst/WeightedTransition.hpp"],
  [("symbol and transition reordering, overflow cells", "src/tools/voikkovfstc.cpp")], observe=["voikkovfstc", "lookups in the compiled file"])

p("C18", "The deprecated handle-number interface behaves like the current one",
  """Each deprecated function called with a handle number answers as the current function does on the corresponding handle; at most four handles are open at a time, numbers are
  reused after termination (the lowest free number first). The fifth initialisation is refused with an error text and terminating a number that is unknown or already terminated is refused with an error result,
  both without any effect on the open handles.""",
  ["histories"], "every sequence of initialisations, terminations and queries through the deprecated interface",
  "DeprecatedApiTest opens and closes handles in one fixed order.",
  ["src/compatibility/interface.cpp"], [("slot table", "src/compatibility/interface.cpp")], state=[("handles", "slot table of at most 4 handles", "src/compatibility/interface.cpp")],
  observe=["functions of voikko_deprecated.h"])

p("C19", "Python and Java modules give the library's answers with right text positions",
  """Each method of the Python module and of the Java classes returns exactly what the underlying library computes for the same text and options: tokens and sentences concatenate to
  the text, positions of grammar errors count characters (in Java, UTF-16 units) from the start of the whole (multi-paragraph) text, hyphenation patterns and analyses correspond to the given word,
  setters set the option of their name, and dictionary descriptions sort by language, script, variant and description.
  Texts with NUL characters, characters beyond the BMP, too long words or that are empty give well-defined answers, and calls on terminated instances raise the module's exception.""",
  ["inputs", "histories"], "every text, sequence of method calls and option", "libvoikkoTest.py and VoikkoTest.java sample short texts.",
  ["python/libvoikko.py", "java/src/main/java/org/puimula/libvoikko/Voikko.java"], [("Voikko class", "python/libvoikko.py"), ("Voikko class", "java/src/main/java/org/puimula/libvoikko/Voikko.java")],
  observe=["methods of libvoikko.Voikko (Python)", "methods of org.puimula.libvoikko.Voikko (Java)"])

p("C20", "Handles can be used concurrently from different threads",
  """Threads that each use their own handle, on the same or different dictionaries, get exactly the answers they would get one after the other, in every
  interleaving, including while other threads initialise and terminate handles or list dictionaries; there are no data races.""",
  ["schedules"], "all interleavings of calls on distinct handles", "All existing tests are single-threaded.",
  ["src/setup/setup.cpp", "src/spellchecker/spell.cpp", "src/fst", "src/grammar"], [("no mutable global state outside of handles", "src")],
  observe=["all functions of voikko.h"])

p("C21", "Canonically equivalent spellings of a word get equivalent answers",
  """A word written with combining marks, ligatures, typographic apostrophes or typographic hyphens is spelled and corrected as the same word written with the corresponding plain characters;
  upper and lower case forms of every supported letter are recognised as such in every function. Suggestions keep the
  typographic characters of the input.""",
  ["inputs"], "every word and every way of writing its characters", "Two or three characters are tested.",
  ["src/character/charset.cpp", "src/character/SimpleChar.cpp"], [("voikko_normalise, voikko_cset_reformat", "src/character/charset.cpp"), ("SimpleChar", "src/character/SimpleChar.cpp")],
  observe=["voikkoSpellUcs4", "voikkoSuggestUcs4", "voikkoAnalyzeWordUcs4"])

p("C22", "Vocabulary to dictionary: exactly the entries asked for, with all their forms",
  """For every vocabulary (joukahainen.xml), autocorrect file and build options, the dictionary that the makefile of voikko-fi builds knows every entry whose style, usage, frequency and application flags the options admit, and none of the others.
  An entry is known in the forms that the inflection tables give for its class, gradation and vowel type (also with particles and, for nouns, possessive suffixes, in the right vowel harmony only), with its word class, base form,
  structure (part borders, capitals, hyphens), case and number or mood, tense and person, and word id; flags keep words from the singular, from persons, from comparison, from beginning or ending a compound, or from standing alone; prefixes combine with the
  word classes they name; uninflected words take the particles and suffixes their flags allow. Every phrase of the autocorrect file is reported with its correction.""",
  ["inputs", "configurations", "programs"], "every vocabulary and every set of build options", "The tests build an empty vocabulary, so no entry ever passes through the generators.",
  ["voikko-fi/vvfst/generate_lex.py", "voikko-fi/common/generate_lex_common.py", "voikko-fi/common/hfconv.py", "voikko-fi/common/voikkoutils.py", "voikko-fi/vvfst/generate_taivutuskaavat.py", "voikko-fi/vvfst/taivutuskaavat.lexc.in",
   "voikko-fi/vvfst/suomi.lexc", "voikko-fi/vvfst/autocorrect_to_lexc.py", "voikko-fi/Makefile"],
  [("handle_word, get_structure, get_diacritics", "voikko-fi/vvfst/generate_lex.py"), ("get_malaga_inflection_class", "voikko-fi/common/generate_lex_common.py"), ("classmap, match_re", "voikko-fi/common/hfconv.py")],
  observe=["make vvfst-install", "voikkoAnalyzeWordUcs4", "voikkoNextGrammarErrorUcs4"])

p("C23", "Inflection tables: every word gets exactly the forms its class prescribes",
  """For every word, inflection class (with or without a gradation type) and table, tools/pylib/voikkoinfl.py gives exactly the forms that the first class of the table which applies to the word
  prescribes, in the order of its rules, with their names, priorities and characteristic marks: the ending taken away and the one added, on the strong or the weak stem
  (consonant gradation av1 to av6, apostrophe where a disappeared consonant separates equal vowels), with the vowels that harmony requires (that of the last part of a compound; both where the word allows both; a forced
  vowel type overrides; six derivations such as -jaa and -tO go by the vowels of the stem after the first part), marks of structure removed. Reading a table gives all of its classes and rules, comments and unknown headers ignored. Words and classes that no rule fits give no forms; nothing raises an error.
  The letter under which the Kotus word list knows the alternation (kotusGradClass) is the one of the consonants that alternate between the strong and the weak stem, empty where there is no alternation or the stem is shorter than three letters.""",
  ["inputs", "programs"], "every word, class, gradation type, vowel type and table", "No test covers the inflection module.",
  ["tools/pylib/voikkoinfl.py", "tools/pylib/voikkoutils.py", "data/subst.aff", "data/verb.aff", "voikko-fi/common/voikkoutils.py"],
  [("__apply_gradation, inflectWordWithType", "tools/pylib/voikkoinfl.py"), ("get_wordform_infl_vowel_type", "tools/pylib/voikkoutils.py")],
  observe=["voikkoinfl.readInflectionTypes", "voikkoinfl.inflectWord", "voikkoutils.get_wordform_infl_vowel_type"])

p("C24", "Text statistics count what the library sees",
  """For every text and options, tools/pylib/voikkostatistics.py reports the numbers of sentences (those that end certainly), words, known words, letters in words, punctuation tokens, syllables (hyphenation points plus one per word) and words by
  syllables of the base form of their first analysis, exactly as the library splits, analyses and hyphenates the text, and the readability indices that follow from them by their formulas; 0 for texts without known words.""",
  ["inputs", "configurations"], "every text, dictionary and option", "No test covers the statistics module.",
  ["tools/pylib/voikkostatistics.py", "python/libvoikko.py"], [("getStatistics", "tools/pylib/voikkostatistics.py")], observe=["voikkostatistics.getStatistics"])

p("C25", "The JavaScript module gives the library's answers and releases its memory",
  """Each method of libvoikko_api.js returns exactly what the underlying library computes for the same text and options: tokens and sentences concatenate to the text, positions, lengths and hyphenation patterns count
  UTF-16 units of the whole (multi-paragraph) text also after characters beyond the BMP, setters set the option of their name, unknown dictionaries and calls on terminated instances throw a string. Texts with NUL characters,
  too long words (returned unhyphenated) and empty ones give well-defined answers. Everything a call allocates or gets from the library is released exactly once by the function meant for it, and no memory is read or written beyond its bounds.""",
  ["inputs", "histories"], "every text, sequence of method calls and option", "The JavaScript module has only a page of tests to be opened in a browser.",
  ["js/libvoikko_api.js"], [("Module.init", "js/libvoikko_api.js")], observe=["methods of the object returned by Module.init"])

p("C26", "ZHFST spellers accept their words and suggest the best corrections first",
  """With a speller in a ZHFST archive a word is accepted exactly when its acceptor has it, subject to the rules on letter case and options that hold for all dictionaries (a word listed with a capital initial needs it, capitals
  throughout are accepted for words so listed); suggestions are the accepted words that the error model reaches at the least total weight, best first, at most five, in the letter case of the word asked about, none twice because of
  its initial capital, and none without an error model. Everything else answers as without a morphology: no analyses, hyphenation by rules for unknown words, no grammar errors, sentences judged with the speller's words.""",
  ["inputs", "configurations"], "every archive (acceptor and error model), word and option", "No test uses a ZHFST archive.",
  ["src/spellchecker/HfstSpeller.cpp", "src/spellchecker/HfstSuggestion.cpp", "src/setup/V3DictionaryLoader.cpp", "src/spellchecker/suggestion/SuggestionStatus.cpp"],
  [("HfstSpeller::spell", "src/spellchecker/HfstSpeller.cpp"), ("HfstSuggestion::generate", "src/spellchecker/HfstSuggestion.cpp")],
  observe=["voikkoSpellUcs4", "voikkoSuggestUcs4", "voikkoInit"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
