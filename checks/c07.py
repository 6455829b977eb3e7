"""C07: inserting separators."""
from conform import Session
import c06, dicts, lexgen, work, words

LAWS = "INIT Init\nNEXT Next\nINVARIANT InsertLaws\nCHECK_DEADLOCK FALSE\n"
SEPARATORS = ["-", "\u00ad", "", "=", " ", "--", "\u2027", "&shy;", "\U0001F600", "a", "'", "x" * 300, "\u00e4"]
BADSEP = [[0xff], [0xc3], [0xe2, 0x80], [0x80], [0xc0, 0xaf], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0x61, 0xc3]]


def broken(rng, b):
    """bytes that are not UTF-8"""
    b = list(b)
    b[rng.randint(0, len(b)):0] = rng.choice(BADSEP[:4] + BADSEP[4:7])
    return b


def check(ctx):
    rng = ctx.rng
    ds = [dicts.FinnishDict("core%d" % i, words.core_lexicon(rng, 150)) for i in range(4)]
    syn = [dicts.FinnishDict("syn%d" % i, lexgen.lexicon(rng, 60, alphabet=["aakt", "aie-", "ok'a", "a-ka"][i], n=6, outs=3)) for i in range(4)]
    root = ctx.write_dicts(ds + syn)
    lawful = ctx.scratch / "laws.json"
    lawful.write_text("{" + ",".join('"%s":%s' % (d.name, (root / (d.name + ".json")).read_text()) for d in ds + syn) + "}")
    ctx.model("MCMorph", LAWS, env={"DICTS": str(lawful)}, what="inserting and removing separators, for every word of the lexicons, under all options")
    ss = []
    for d in ds + syn:
        ws = list(d.lex)
        for _ in range(4):
            s = Session("words")
            s.open(d.name, d.lang, root)
            for i in range(ctx.n(700, 7000)):
                if i % 50 == 49:
                    c06.options(rng, s)
                w = c06.hyph_word(rng, ws).encode()
                y = rng.choice(SEPARATORS).encode() if rng.random() < .97 else bytes(rng.choice(BADSEP))
                if rng.random() < .02:
                    w = bytes(broken(rng, w))
                s.insh(w, y, rng.choice([0, 1, 1, 7]))
            ss.append(s)
    s = Session("limits")
    s.open(ds[0].name, ds[0].lang, root)
    for c in (0, 1):
        for y in ("-", "\u00e4b", ""):
            for w in c06.long_words(rng) + ["k" * 256, "ka" * 128, "k\u00e4" * 85, "k\u00e4" * 85 + "k", "\u00e4" * 127, "\u00e4" * 128, "\U0001F600" * 63]:
                s.insh(w.encode(), y.encode(), c)
    ss.append(s)
    ctx.validate(ss, root)
