"""C13: UTF-8 functions."""
from conform import Session
import c02, c05, c06, c07, c11, dicts, work, words

LAWS = """INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Bytes = {1, 65, 127, 128, 159, 160, 143, 144, 191, 192, 193, 194, 195, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255}
          MaxLen = %d
CHECK_DEADLOCK FALSE
"""
CH = ["a", "B", "1", " ", ".", "\u00e4", "\u00c5", "\u0161", "\u2019", "\u2013", "\u2026", "\u20ac", "\U0001F600", "\U0010FFFD", "\u0439", "-", "\u00ad", "\ufb03", "\ufffd", "\ud7ff", "\ue000", "\u0800", "\u07ff", "\u0080", "\U00010000"]


def enc(s):
    return list(s.encode("utf-8"))


def check(ctx):
    rng = ctx.rng
    ctx.model("MCUtf8", LAWS % ctx.n(4, 5), workers=8, what="decoding is the inverse of encoding, for every byte string over 23 boundary bytes up to the length")
    lex = words.core_lexicon(rng, 60)
    for i, c in enumerate("\u00e4\u0161\u0439\u20ac\ue000\u0800\u07ff"):
        lex["t%so" % c] = ["[Ln]t%so" % c]
    lex["\u00e4" * 127] = ["[Ln]" + "\u00e4" * 127]
    lex["\u00e4" * 127 + "a"] = ["[Ln]" + "\u00e4" * 127 + "a"]
    lex["\u00e4" * 128] = ["[Ln]" + "\u00e4" * 128]
    lex["a" * 255] = ["[Ln]" + "a" * 255]
    d = dicts.FinnishDict("utf", lex)
    root = ctx.write_dicts([d])
    ws = list(lex)
    ss = []

    def word():
        k = rng.random()
        if k < .5:
            return enc(words.word(rng, ws))
        if k < .7:
            return enc("".join(rng.choice(CH) for _ in range(rng.randint(0, 6))))
        if k < .85:
            return c07.broken(rng, enc(words.word(rng, ws)))
        if k < .9:
            w = enc(rng.choice(ws) + rng.choice(CH))
            return w[:rng.randint(0, len(w))]
        return [x for x in (rng.choice([0x41, 0x61, 0xc3, 0xa4, 0xe2, 0x80, 0x93, 0xf0, 0x9f, 0xed, 0xa0, 0xc0, 0xf4, 0x8f, 0xbf, 0xfe, 0xff]) for _ in range(rng.randint(1, 5)))]

    for part in range(16):
        s = Session("words")
        s.open(d.name, d.lang, root)
        for i in range(ctx.n(900, 9000)):
            if i % 50 == 49:
                words.random_options(rng, s)
            w = word()
            s.word(rng.choice(["spell", "hyph", "ana"]), [b for b in w if b], bytes_=True)
        ss.append(s)
    for part in range(8):
        s = Session("suggestions")
        s.open(d.name, d.lang, root)
        for i in range(ctx.n(40, 600)):
            if i % 12 == 11:
                c05.options(rng, s)
            w = enc(c05.misspelling(rng, ws))
            if rng.random() < .2:
                w = c07.broken(rng, w)
            s.word("sugg", [b for b in w if b], bytes_=True)
        ss.append(s)
    gd = c11.make_dicts(rng, 1)[0]
    root2 = ctx.write_dicts([gd], "gdicts")
    gs = []
    for part in range(8):
        s = Session("grammar")
        s.open(gd.name, gd.lang, root2)
        for i in range(ctx.n(120, 1500)):
            if i % 20 == 19:
                c11.options(rng, s)
            t = enc(c11.paragraph(rng, list(gd.lex)) + rng.choice(["", "", "", "\U0001F600", "\u20ac on.", " \u00c4iti \u00e4iti"]))
            if rng.random() < .2:
                t = [b for b in c07.broken(rng, t) if b] or [0x61]
            mode = "zxg"[i % 3]
            if rng.random() < .5:
                s.gramall(t, mode=mode, startpos=rng.choice([0, 0, rng.randint(0, len(t))]), bytes_=True)
            else:
                s.gram(t, rng.choice([0, 0, rng.randint(0, len(t))]), rng.choice([0, 0, 1, 2]), mode=mode, bytes_=True)
        gs.append(s)
    ctx.validate(gs, root2)
    s = Session("limits")
    s.open(d.name, d.lang, root)
    for w in ["", "\u00e4" * 127, "\u00e4" * 127 + "a", "\u00e4" * 128, "a" * 255, "a" * 256, "a" * 254 + "\u00e4", "a" * 253 + "\u00e4", "\U0001F600" * 63 + "aaa", "\U0001F600" * 64, "\u20ac" * 85, "\u20ac" * 85 + "a"]:
        for op in ("spell", "hyph", "ana", "sugg"):
            s.word(op, enc(w), bytes_=True)
            s.word(op, w)
    ss.append(s)
    # every sequence of boundary bytes of each length, alone and inside a word
    lead = [0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff]
    nxt = [0x41, 0x7f, 0x80, 0x82, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]
    seqs = [[a] for a in lead] + [[a, b] for a in lead for b in nxt] + [[a, b, c] for a in lead if a >= 0xe0 for b in nxt for c in (0x41, 0x80, 0xac, 0xbf, 0xc0)] \
        + [[a, b, c, e] for a in lead if a >= 0xf0 for b in nxt for c in (0x80, 0xbf, 0xc1) for e in (0x41, 0x80, 0xbf)]
    seqs = [q for q in seqs if q[:3] not in ([0xef, 0xbf, 0xbe], [0xef, 0xbf, 0xbf])]       # non-characters are out of the domain
    for part in range(8):
        s = Session("sequences")
        s.open(d.name, d.lang, root)
        for i, q in enumerate(seqs[part::8]):
            s.word("spell", q + [0x6f], bytes_=True)
            s.word(rng.choice(["spell", "hyph", "ana"]), [0x74] + q + rng.choice([[], [0x6f]]), bytes_=True)
            if i % 4 == 0:
                s.text(rng.choice(["tok1", "sent1"]), q + rng.choice([[], [0x6f, 0x20, 0x61]]), mode="zxg"[i % 3], bytes_=True)
        ss.append(s)
    for part in range(24):
        s = Session("texts")
        s.open(d.name, d.lang, root)
        for i in range(ctx.n(350, 3500)):
            if i % 60 == 59:
                s.setb(0, rng.randint(0, 1))
            k = rng.random()
            if k < .4:
                t = "".join(rng.choice(c02.FRAG + CH) for _ in range(rng.randint(1, 14)))
            elif k < .6:
                t = work.text(rng, rng.choice([5, 30, 80]))
            elif k < .8:
                # long tokens and addresses: the text is longer than what a token usually needs
                a = "".join(rng.choice(["a", "\u00e4", "b", "-a", "1", ".c"]) for _ in range(rng.randint(20, 70)))
                b = "".join(rng.choice(["a", "b", "c", "\u00e4", "1"]) for _ in range(rng.randint(1, 60)))
                t = rng.choice(["", "-"]) + a + rng.choice(["@", "@", "", " "]) + b + rng.choice([".fi", ".", "", "#"]) + rng.choice([" ", ".", "", "\u00e4", ". b", " " * 60]) + rng.choice(["", "x" * 300, "\u00e4 " * 150])
            else:
                t = rng.choice(["http://", "https://", "\u00e4", " ", "a"]) + "".join(rng.choice(["a", "/", "\u00e4", ".", "%20", "#", "=", ".b", "\u00a0" if rng.random() < .1 else "c"]) for _ in range(rng.randint(30, 140))) + rng.choice(["", " a", ". a", "."])
            b = enc(t)
            mode = "zxg"[i % 3]
            r = rng.random()
            if r < .2:
                # a fault at a random place, also far behind the first token
                x = c07.broken(rng, b + enc(rng.choice(["", " koira" * 70, "\u20ac" * 120])))
                s.text(rng.choice(["tok1", "sent1"]), [c for c in x if c], mode=mode, bytes_=True)
            elif r < .6:
                s.text("tok", b, mode=mode, bytes_=True)
            elif r < .8:
                s.text("sent", b, mode=mode, bytes_=True)
            else:
                s.text(rng.choice(["tok1", "sent1"]), b, mode=mode, bytes_=True)
        ss.append(s)
    ctx.validate(ss, root)
