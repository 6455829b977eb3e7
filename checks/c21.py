"""C21: equivalent spellings, letter case."""
import unicodedata
from conform import Session
import c05, c06, dicts, work, words

LAWS = "INIT Init\nNEXT Next\nINVARIANT EquivalenceLaws\nCHECK_DEADLOCK FALSE\n"
LETTERS = [c for c in list(range(0x61, 0x7b)) + list(range(0xc0, 0x250)) + list(range(0x400, 0x482)) + list(range(0x48a, 0x528)) + [0x292, 0x1b7, 0x18f, 0x259, 0x1400, 0x15c3, 0xfb00, 0xfb04]]
LIG = {"ffi": "\ufb03", "ffl": "\ufb04", "ff": "\ufb00", "fi": "\ufb01", "fl": "\ufb02", "\u00b0C": "\u2103", "\u00b0F": "\u2109"}
MARKS = "\u0300\u0301\u0302\u0303\u0304\u0306\u0308\u030a\u030c\u0327"
BASES = "ACEINOUYaceinouySsZzGgTt\u0418\u0438\u0415\u0435\u0413\u0433\u041e\u043e\u0391"


def variants(rng, w):
    r = []
    r.append(unicodedata.normalize("NFD", w))
    r.append("".join(unicodedata.normalize("NFD", c) if rng.random() < .5 else c for c in w).replace("'", "\u2019"))
    r.append(w.replace("-", rng.choice("\u2010\u2011")).replace("'", "\u2019"))
    for a, b in LIG.items():
        if a in w:
            r.append(w.replace(a, b))
            r.append(w.replace(a, b, 1))
    return r


def check(ctx):
    rng = ctx.rng
    letters = {}
    for c in LETTERS:
        l = chr(c)
        # the lexicon has lower case words only
        if len(l.lower()) == 1:
            l = l.lower()
        for w in (l, l + "aa", "t" + l + "x", "a" + l):
            letters[w] = ["[Ln][Xp]%s[X]%s" % (w, w)]
    for w in ["efektiivinen", "offi", "affla", "vaa'an", "linja-auto", "rei'itt\u00e4\u00e4", "\u0161akki", "\u017ealuusi", "\u00e5\u00e4\u00f6", "\u0439\u0451\u0450\u0453\u04e7", "finni", "fluff", "10\u00b0c", "\u00e9\u00e8\u00ea\u00eb\u00ff\u00f1\u00e7"]:
        letters[w] = ["[Ln][Xp]%s[X]%s" % (w, w)]
    d = dicts.FinnishDict("letters", letters)
    core = dicts.FinnishDict("core", words.core_lexicon(rng, 300))
    cap = dicts.FinnishDict("caps", {w: ["[Lep][Xp]%s%s[X]%s" % (w[:1].upper(), w[1:], w)] for w in letters if w[0] not in "1\u00df\u0149\u01f0" and len(w[:1].upper()) == 1 and w[:1].upper().lower() == w[:1]})
    root = ctx.write_dicts([d, core, cap])
    lawful = ctx.scratch / "laws.json"
    lawful.write_text("{" + ",".join('"%s":%s' % (x.name, (root / (x.name + ".json")).read_text()) for x in (d, core)) + "}")
    ctx.model("MCMorph", LAWS, env={"DICTS": str(lawful)}, what="every word of the lexicons gets the same verdict in each equivalent spelling")
    ss = []

    def session(dd, calls):
        for part in work.split(calls, 8):
            s = Session(dd.name)
            s.open(dd.name, dd.lang, root)
            for i, (op, w) in enumerate(part):
                if i % 300 == 299:
                    words.random_options(rng, s, only=[0, 3, 6, 7, 10])
                if op in ("tok", "sent"):
                    s.text(op, w)
                else:
                    s.word(op, w)
            ss.append(s)
    # letter case of every letter, in every function
    calls = []
    for c in list(range(0x80, 0x530)) + [0x1400, 0x15c3, 0xfb00, 0xfb01, 0xfb02, 0xfb03, 0xfb04, 0x1e9e, 0x2c60, 0x10400]:
        l = chr(c)
        for w in (l, l + "aa", "t" + l + "x", "T" + l + "x", "T" + l + "X", l + "AA", "a" + l, "A" + l, l + l, "a" + l + "a" + l):
            calls.append(("spell", w))
            if rng.random() < .3:
                calls.append(("ana", w))
            if rng.random() < .3:
                calls.append(("hyph", w))
        calls.append(("sent", "Aa %s. Aa" % l))
        calls.append(("sent", "Aa %s.\u201d Aa" % l))
        calls.append(("tok", "a%sa %s1" % (l, l)))
    session(d, calls)
    session(cap, [c for c in calls if c[0] in ("spell", "ana")])
    # combining marks
    calls = []
    for b in BASES:
        for m in MARKS:
            for w in (b + m, b + m + "aa", "t" + b + m + "x", "T" + b + m + "X", b + m + m, m + b, "a" + b + m):
                calls.append(("spell", w))
    for w in list(letters) + list(core.lex):
        for v in variants(rng, w):
            for x in (v, v[:1].upper() + v[1:], v.upper() if len(v.upper()) == len(v) else v, words.cases(rng, v), words.hyphenate_somehow(rng, v)):
                calls.append(("spell", x))
    rng.shuffle(calls)
    session(d, calls)
    session(core, calls)
    # suggestions in the typography of the input
    calls = []
    hy = [w for w in core.lex if "-" in w.strip("-") or "'" in w]
    parts = [w for w in core.lex if 2 <= len(w) <= 6 and w.isalpha()]
    for _ in range(ctx.n(500, 6000)):
        w = rng.choice(hy) if rng.random() < .7 else rng.choice(parts) + "-" + rng.choice(parts)
        for _ in range(rng.choice([1, 1, 2])):
            w = c05.typo(rng, w)
        w = words.cases(rng, w)
        if rng.random() < .1:
            w = "-" * rng.randint(0, 1) + w + rng.choice([".", "-", ""])
        calls.append(("sugg", rng.choice(variants(rng, w)) if rng.random() < .8 else w))
    for b in "\u2010\u2011\u2019":
        for w in hy[:40]:
            for i in range(len(w)):
                if w[i] in "-'":
                    v = w.replace("-", b if b != "\u2019" else "-").replace("'", "\u2019")
                    calls += [("sugg", v[:i - 1] + v[i:]), ("sugg", v[:i + 1] + v[i + 2:]), ("sugg", v[:i] + v[i - 1] + v[i:])]
    session(core, calls)
    ctx.validate(ss, root)
