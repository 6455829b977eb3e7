"""The Python module driven by commands, one per line, with the answers as JSON (texts as lists of code points).
Arguments: directory of libvoikko.py, directory of the shared library, and for statistics the directory of that module."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import libvoikko as L

L.Voikko.setLibrarySearchPath(sys.argv[2])
H = {}


def text(s):
    return "".join(chr(int(x)) for x in s.split())


def out(s):
    return [ord(c) for c in s]


def err(e):
    return dict(code=e.errorCode, pos=e.startPos, len=e.errorLen, sugg=[out(s) for s in e.suggestions], descr=out(e.shortDescription))


def dic(d):
    return dict(lang=list(d.language.encode()), script=list(d.script.encode()), variant=list(d.variant.encode()), desc=list(d.description.encode()))


def run(a):
    op = a[0]
    if op == "binit":
        try:
            H[a[1]] = L.Voikko(a[2], a[3])
        except L.VoikkoException as x:
            return dict(ok=0, err=1 if str(x) else 0)
        return dict(ok=1, err=0)
    if op == "blistd":
        return [dic(d) for d in L.Voikko.listDicts(a[1])]
    if op == "bcaps":
        V = L.Voikko
        return {k: [list(x.encode()) for x in f(a[1])] for k, f in (("spell", V.listSupportedSpellingLanguages),
                ("hyphen", V.listSupportedHyphenationLanguages), ("grammar", V.listSupportedGrammarCheckingLanguages))}
    if op == "bsort":
        return [[out(x) for x in (d.language, d.script, d.variant, d.description)] for d in sorted(L.Dictionary(*x.split(",")) for x in a[1:])]
    v = H[a[1]]
    if op == "bterm":
        v.terminate()
        return 1
    if op == "bdel":
        del H[a[1]], v
        import gc
        gc.collect()
        return 1
    if op == "bset":
        if a[2] == "setSuggestionStrategy":
            v.setSuggestionStrategy([L.SuggestionStrategy.TYPO, L.SuggestionStrategy.OCR][int(a[3])])
        elif a[2].startswith("setInteger:"):
            v.setIntegerOption(int(a[2][11:]), int(a[3]))
        elif a[2].startswith("setBoolean:"):
            v.setBooleanOption(int(a[2][11:]), int(a[3]) != 0)
        elif a[2] in ("setMinHyphenatedWordLength", "setSpellerCacheSize"):
            getattr(v, a[2])(int(a[3]))
        else:
            getattr(v, a[2])(int(a[3]) != 0)
        return 1
    if op == "bspell":
        r = v.spell(text(a[2]))
        return 1 if r is True else 0 if r is False else repr(r)
    if op == "bsugg":
        return [out(s) for s in v.suggest(text(a[2]))]
    if op == "bhyph":
        return out(v.getHyphenationPattern(text(a[2])))
    if op == "binsh":
        if a[3] == "" and a[4] == "default":
            return out(v.hyphenate(text(a[2])))
        return out(v.hyphenate(text(a[2]), text(a[3]), a[4] == "1"))
    if op == "bana":
        return [{k: out(x) for k, x in m.items()} for m in v.analyze(text(a[2]))]
    if op == "btok":
        p, r = 0, []
        for t in v.tokens(text(a[2])):
            r.append(dict(type=t.tokenType, text=out(t.tokenText), pos=p))
            p += len(t.tokenText)
        return r
    if op == "bsent":
        return [dict(type=s.nextStartType, text=out(s.sentenceText)) for s in v.sentences(text(a[2]))]
    if op == "bgram":
        return [err(e) for e in v.grammarErrors(text(a[2]), a[3])]
    if op == "battr":
        return v.attributeValues(text(a[2]))
    if op == "bstat":
        sys.path.append(sys.argv[3])
        import voikkostatistics
        r = voikkostatistics.getStatistics(text(a[2]), v)
        m = lambda x: round(1000 * x)
        return dict(sent=r["SENTENCES"], words=r["WORDS"], known=r["KNOWN_WORDS"], syll=r["SYLLABLES"], letters=r["LETTERS"], punct=r["PUNCTUATION"],
                    hist=sorted([k, x] for k, x in r["BASEFORM_SYLLABLES_HISTOGRAM"].items()), n=len(r),
                    ease=m(r["FLESCH_READING_EASE"]), grade=m(r["FLESCH_KINCAID_GRADE_LEVEL"]), wiio=m(r["WIIO_SIMPLE"]))
    raise SystemExit(97)


for line in sys.stdin:
    a = line.rstrip("\n").split("\t")
    try:
        r = run(a)
    except L.VoikkoException:
        r = {"exc": "VoikkoException"}
    except Exception as x:
        r = {"exc": type(x).__name__}
    print(json.dumps(r), flush=True)
# whatever is left is released here: a failure in it is a failure of the process
H.clear()
