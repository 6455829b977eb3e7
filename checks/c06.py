"""C06: hyphenation patterns."""
from conform import Session
import dicts, lexgen, work, words

LAWS = "INIT Init\nNEXT Next\nINVARIANT HyphenLaws\nCHECK_DEADLOCK FALSE\n"
OPTS = [0, 4, 15]
SYL = ["a", "aa", "ae", "ai", "aie", "iea", "aia", "au", "uo", "ie", "\u00e4\u00e4", "y\u00f6", "\u00f6e", "io", "ii", "uu", "ou", "t", "k", "s", "kk", "st", "rtt", "shtsh", "tsh", "zh", "\u0161t\u0161", "t\u0161", "\u0161", "'", "\u2019",
       "-", "-", ".", ":", "/", "&", "%", "1", "b", "q", "w", "\u00e5", "\u00e9", "A", "K", "\u00c4", "\u0410", "\u00ad", "n"]


def options(rng, s):
    for o in OPTS:
        s.setb(o, rng.randint(0, 1))
    s.seti(9, rng.choice([2, 2, 2, 0, 1, 3, 4, 5, 6, 7, 10]))


def hyph_word(rng, ws):
    k = rng.random()
    if k < .35:
        return words.word(rng, ws)
    if k < .45:
        return rng.choice(ws) + "-" + rng.choice(ws)
    if k < .5:
        return rng.choice(words.NONWORDS)
    return "".join(rng.choice(SYL) for _ in range(rng.randint(1, 7)))


def long_words(rng):
    return ["", "a", "aa", "ak", "ka", "k" * 255, "ka" * 127 + "a", "a" * 255, "a-" * 127 + "a", "talo" * 60, "talo" * 63 + "tal", "a'" * 127 + "a", "-" * 255, "k'" * 100]


def check(ctx, op="hyph"):
    rng = ctx.rng
    ds = [dicts.FinnishDict("core%d" % i, words.core_lexicon(rng, 150)) for i in range(4)]
    syn = [dicts.FinnishDict("syn%d" % i, lexgen.lexicon(rng, 60, alphabet=["aakt", "aie-", "ok'a", "a-ka"][i], n=6, outs=4)) for i in range(4)]
    many = {"kanaana": [x for k in range(7) for x in ("[Ln]" + "kanaana"[:k] + "[Bc]" * bool(k) + "kanaana"[k:],)] * 6}
    lim = dicts.FinnishDict("many", dict(many, **{"ta" * 127: ["[Ln]" + "ta" * 127], "ta" * 127 + "t": ["[Ln]" + "ta" * 60 + "[Bh][Bc]" + "ta" * 67 + "t"]}))
    root = ctx.write_dicts(ds + syn + [lim])
    lawful = ctx.scratch / "laws.json"
    lawful.write_text("{" + ",".join('"%s":%s' % (d.name, (root / (d.name + ".json")).read_text()) for d in ds + syn) + "}")
    ctx.model("MCMorph", LAWS, env={"DICTS": str(lawful)}, what="patterns of every word of the lexicons are well formed under all options")
    ss = []

    def session(d, part, every=40):
        s = Session("words")
        s.open(d.name, d.lang, root)
        for i, w in enumerate(part):
            if i % every == every - 1:
                options(rng, s)
            s.word(op, w)
        ss.append(s)
    for d in ds:
        ws = list(d.lex)
        for _ in range(6):
            session(d, [hyph_word(rng, ws) for _ in range(ctx.n(700, 7000))])
    for d in syn:
        ws = list(d.lex)
        allw = ws * 3 + [words.hyphenate_somehow(rng, words.cases(rng, rng.choice(ws)) + rng.choice(["", ".", "", rng.choice(ws)])) for _ in range(ctx.n(600, 6000))]
        rng.shuffle(allw)
        for part in work.split(allw, 2):
            session(d, part, 15)
    # every short word over a few letters of each class
    short = list(work.strings("aik-'", ctx.n(5, 6))) + list(work.strings("ao\u00e4ts", ctx.n(4, 5))) + list(work.strings("Ka1.:", 4))
    rng.shuffle(short)
    for part in work.split(short, 8):
        session(lim, part, 60)
    session(lim, (long_words(rng) + list(lim.lex) + [w + "." for w in lim.lex]) * 4, 10)
    ctx.validate(ss, root)
