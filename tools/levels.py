_T = "TLA+ specification model-checked with TLC; recorded histories of the real library validated against it"
_N = "%s The answers of the real library (built with address and undefined-behaviour sanitizers from the working tree) are decided by TLC on the TLA+ specification; bounded by the inputs recorded. Trusts TLC, the driver and the dictionary writer."
NOTE = {
 "C01": (_T, _N % "Every text of up to 3 characters over 17 character classes, every code point below U+3000 in context, and random longer texts."),
 "C03": (_T, _N % "Words derived from real and synthetic lexicons in all letter cases, hyphenations and option settings; every short word over a synthetic lexicon."),
 "C09": (_T, _N % "Every entry of a harvested lexicon of 5342 analyses and tens of thousands of random well-formed entries."),
 "C02": (_T, _N % "Every text of up to 3 tokens over the sentence-relevant token kinds and random longer texts, with dictionaries deciding on words ending in a dot."),
 "C05": (_T, _N % "Misspellings by one to three edits of every kind of words of real lexicons and of dense synthetic ones (many neighbours, so that ordering, the limit of fifteen found and the budget matter), joined words, both strategies, options; MCSugg checks the laws of suggestions for misspellings of every word of two lexicons."),
 "C06": (_T, _N % "Words of real and synthetic lexicons, random compounds, unknown words, all settings of the hyphenation options."),
 "C07": (_T, _N % "All hyphenated words above combined with separators of every kind (empty, multi-byte, long, invalid) and both context flags."),
 "C04": (_T, _N % "Cache.tla: all histories of a small handle (5 words sharing slots, 3 paragraphs, 4 options, 3 cache sizes) exhaustively, and one replayed history per transition; random histories mixing every function and several handles of two dictionaries, with words sharing cache slots."),
 "C08": (_T, _N % "Random and adversarial transducers in the file format (every flag operation, fan-outs around and far beyond 255, weights, both byte orders, cyclic and exponential ones), looked up by the analysers, the speller, the error model and the autocorrector."),
 "C15": (_T, _N % "Every prefix of small transducer files, hundreds of files with one fault each and thousands of random damages, for every file of a dictionary and both byte orders, each judged byte by byte; combinations of parts named in the index; MCVfst checks that no proper prefix of a file passes."),
 "C17": (_T, _N % "Random transducers as AT&T text compiled by the real compiler with every format and weight type, each lookup in the file compared with the paths of the text; damaged texts, wrong arguments, the limits of symbols and weights."),
 "C18": (_T, _N % "Slots.tla: all histories of four numbered handles, one replayed per transition; random histories calling every deprecated function, with tags built from variant names."),
 "C10": (_T, _N % "Families of paragraphs that resemble each other, queried in random order with every kind of start position and skip count; complete grids of positions and skip counts for some texts."),
 "C11": (_T, _N % "Random paragraphs over lexicons covering all combinations of the features the rules look at, every sequence of up to three tokens of eight kinds, paragraphs at the size limits."),
 "C12": (_T, _N % "Random sets of dictionaries in up to six places (given path, environment, home, built-in) with tags differing in language, script, variant, case and hyphens, damaged index files, every language query; MCSelect checks the laws of selection for all sets of up to three dictionaries with eight tags in three places."),
 "C13": (_T, _N % "All byte strings of up to three bytes over boundary bytes, random valid and damaged texts of any length, for each function taking UTF-8."),
 "C14": (_T, _N % "Every option alone and in (sampled; thorough: all) ordered pairs with inputs sensitive to each option, unknown option numbers, unusual values, histories over several handles."),
 "C21": (_T, _N % "Every character of the normalisation tables in every position of known and unknown words, in each function that normalises."),
 "C16": (_T, _N % "Ring.tla: voikkospell's ring of blocks and threads in all schedules; random options and input lines for voikkospell, voikkohyphenate and voikkogc with every thread count and forced finishing orders."),
 "C19": (_T, _N % "Bind.tla: what the methods of the Python and Java modules return given the library's answers; random histories of method calls on several instances in a Python interpreter and a Java virtual machine, with multi-paragraph texts, NUL, characters beyond the BMP, words at the length limits, terminated instances (the Java runs use the library without sanitizers)."),
 "C20": (_T, _N % "Par.tla: all interleavings of threads with handles of their own (and the variant with shared storage, which must fail); real threads under the thread and address sanitizers, the answers of each decided by the specification. Schedules are those the machine produced, not all."),
 "C22": (_T, _N % "Vocab.tla (on top of Infl.tla): membership, forms, attributes, structure, compounds, prefixes; TLC derives the questions from random vocabularies (every shape of word the classes allow), the dictionaries are built with the makefile, foma and voikkovfstc of the working tree, and VocabTrace.tla judges the library's answers."),
 "C23": (_T, _N % "Infl.tla: harmony, gradation, rules and choice of the class; the tables of data/ and random tables (read by a parser of /verif), random words that fit and do not fit their classes, harmony of both copies of voikkoutils."),
 "C25": (_T, _N % "Bind.tla for the JavaScript module, whose source runs in node over a memory that records allocations, with the library behind it (no WebAssembly compiler is installed); random histories on several instances, multi-paragraph texts, NUL, characters beyond the BMP, words at the length limits, terminated instances."),
 "C26": (_T, _N % "Hfst.tla: verdicts and candidates of weighted acceptors and error models; random archives written by gen/hfst.py (libhfstospell itself is trusted) with words differing in their capitals, hyphens and dots, replacements of strings of up to three characters, equal and far apart weights."),
 "C24": (_T, _N % "Counts and indices from the specification's tokens, sentences, analyses and hyphenation; random texts, dictionaries and options in a Python interpreter."),
}
NA = {}
