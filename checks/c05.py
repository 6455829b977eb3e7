"""C05: suggestions."""
from conform import Session
import dicts, lexgen, work, words

LAWS = "INIT Init\nNEXT Next\nINVARIANT SuggestionLaws\nCONSTANT Typos = %d\nCHECK_DEADLOCK FALSE\n"
NEAR = "., as iu io tr td er s\u0161 sa nm ui lk kl kg oi \u00e4\u00f6 mn re rt vb pb po yt hj jh jk dt ds df \u00f6\u00e4 gf gh gk fg fd bp bn cv cs we wv xc z\u017e zx qa \u00e5o \u00e5p \u00e5\u00e4 \u00e5\u00f6 ae ik ty ea 1q 2q 2w 3w 3e 4e 4r 5r 5t 6t 6y 7y 7u 8u 8i 9i 9o 0o 0p +p ie es sd nh uj l\u00f6 kj op \u00e4p mk rd vg pl yh hu ji de \u00f6l gt fv bv ck wa xs za qk \u00e5a a\u00e5 e\u00e9 a\u00e2 kc sc ij xz qw qs wq ws wd ed ef rf ao oa ou tl sr ai e\u00e4 \u00e4e uv vu od do hm mh".split()
FLIP = dict(zip("aou\u00e4\u00f6y", "\u00e4\u00f6yaou"))
OCR = dict(o="0ucq", i="l", l="i", a="\u00e4_", k="_", b="ph", n="m", m="n", t="_", u="ov")


def typo(rng, w, ocr=False):
    """w with one mistake of a kind that the edits undo (or nearly)"""
    s = list(w)
    p = rng.randrange(len(s))
    if ocr:
        if s[p].lower() in OCR:
            s[p] = rng.choice(OCR[s[p].lower()])
        elif rng.random() < .5:
            s[p] = "_"
        return "".join(s)
    k = rng.randint(0, 11)
    if k == 0:
        return "".join(FLIP[c] if c in FLIP and rng.random() < .6 else c for c in s)
    if k in (1, 2):
        c = [x for x in NEAR if x[1] == s[p].lower()]
        if c:
            x = rng.choice(c)[0]
            s[p] = x.upper() if s[p].isupper() and len(x.upper()) == 1 else x
    elif k == 3:
        s.insert(p, rng.choice("aeistnkul-" + s[p]))
    elif k == 4:
        del s[p]
    elif k == 5:
        s.insert(p, s[p])
    elif k == 6:
        q = min(len(s) - 1, p + rng.choice([1, 1, 1, 2, 3, 5]))
        s[p], s[q] = s[q], s[p]
    elif k == 7:
        d = [i for i in range(len(s) - 1) if s[i] == s[i + 1]]
        if d:
            i = rng.choice(d)
            c = [x for x in NEAR if x[1] == s[i].lower()]
            if rng.random() < .3 or not c:
                del s[i]
            else:
                s[i] = s[i + 1] = rng.choice(c)[0]
    elif k == 8:
        s[p:p] = s[p:p + 2]
    elif k == 9:
        s.insert(p, "\u00ad")
    elif k == 10:
        s = [c for c in s if c not in "-'"]
    else:
        s[p] = rng.choice("\u00e4aoxz1.+-:")
    return "".join(s)


def joined(rng, ws):
    a, b = rng.choice(ws), rng.choice(ws)
    return words.cases(rng, a) + rng.choice(["", "", "", "-", ".", ".-", "--", "\u2010", "\u00ad"]) + words.cases(rng, b)


def misspelling(rng, ws, ocr=False):
    k = rng.random()
    if k < .1:
        w = rng.choice(ws)
    elif k < .25 and not ocr:
        w = joined(rng, ws)
    else:
        w = rng.choice(ws)
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if w:
                w = typo(rng, w, ocr)
    w = words.cases(rng, w)
    if rng.random() < .12:
        w += rng.choice([".", ".", "..", "\u00ad", "-"])
    return words.typography(rng, w) if rng.random() < .5 else w


def dense(rng, letters, n, count):
    """a lexicon in which misspelled words have many neighbours"""
    lex = {}
    cls = ["n", "n", "n", "l", "nl", "t", "s", "ee", "es", "ep", "em", "a", "u"]
    case = ["n", "g", "p", "ine", "ill", "ela", "ade", "all", "es", "tr", "in", "abl", "ab", "ko"]
    while len(lex) < count:
        w = "".join(rng.choice(letters) for _ in range(rng.randint(2, n)))
        if w in lex or w[0] in "-'." or "--" in w:
            continue
        outs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            c = rng.choice(cls)
            cap = c in ("ee", "es", "ep", "em")
            j = rng.randint(1, len(w) - 1) if len(w) > 3 and rng.random() < .25 else 0
            t = "[S%s][Ny]" % rng.choice(case) if rng.random() < .8 else ""
            if c in ("t", "s", "a"):
                t = ""
            if j and "-" not in w:
                i2 = rng.randint(j + 1, len(w) - 1) if len(w) - j > 2 and rng.random() < .4 else None
                body = w[:j] + "[Bh][Bc][Ln]" + (w[j:] if not i2 else w[j:i2] + "[Bh][Bc][Ln]" + w[i2:])
                outs.append("[L%s]%s%s" % (c, body, t))
            else:
                outs.append("[L%s][Xp]%s[X]%s%s" % (c, w[:1].upper() + w[1:] if cap else w, w, t))
        lex[w] = outs
    return lex


def options(rng, s):
    for _ in range(rng.randint(1, 2)):
        s.setb(rng.choice([0, 0, 8, 7, 6, 3, 11, 12]), rng.randint(0, 1))


def check(ctx):
    rng = ctx.rng
    ds = [dicts.FinnishDict("core%d" % i, words.core_lexicon(rng, 700)) for i in range(3)]
    syn = [dicts.FinnishDict("dense%d" % i, dense(rng, a, n, c)) for i, (a, n, c) in enumerate([("aiske", 4, 60), ("ao\u00e4\u00f6kt", 4, 50), ("oiuln-", 5, 200), ("atk.'", 4, 60), ("aekorpt", 6, 400)])]
    root = ctx.write_dicts(ds + syn)
    lawful = ctx.scratch / "laws.json"
    lawful.write_text("{" + ",".join('"%s":%s' % (d.name, (root / (d.name + ".json")).read_text()) for d in syn[:2]) + "}")
    ctx.model("MCSugg", LAWS % ctx.n(1, 12), env={"DICTS": str(lawful)}, workers=8, what="suggestions for misspellings of every word of two dense lexicons are correct words, at most five, in the case of the input")
    ss = []
    for d in ds + syn:
        ws = list(d.lex)
        for part in range(3 if d in ds else 2):
            s = Session("typos")
            s.open(d.name, d.lang, root)
            ocr = False
            for i in range(ctx.n(90, 1500)):
                if i % 12 == 11:
                    options(rng, s)
                    ocr = s.calls[-1][1]["v"] == 1 if s.calls[-1][1]["k"] == 8 else ocr
                s.word("sugg", misspelling(rng, ws, ocr and rng.random() < .7))
            ss.append(s)
    lim = Session("limits")
    lim.open(ds[0].name, ds[0].lang, root)
    for o in (None, (0, 1), (8, 1), (7, 0)):
        if o:
            lim.setb(*o)
        for w in ["", "a", "A\u0300", "A\u0308", "a\u0308.", "\u00e4.", "ab", "a.", "..", "...", "--", "\ufb03", "\ufb03x", "\ufb01.", "kis\ufb01sa", "\u00ad", "\u00ad\u00ad", "\u00ad\u00ad\u00ad",
                  "koirra" * 2, "kissakoira" * 6, "k" * 255, "kissa" * 51, "k" * 256, "\u0161" * 40, "-kissa", "kissa-", "linja\u2010autto", "linnja\u2011auto", "rei\u2019ittin", "ve\u2019ek", "\u2019\u2019", "vaa\u2019ann."]:
            lim.word("sugg", w)
    ss.append(lim)
    ctx.validate(ss, root)
