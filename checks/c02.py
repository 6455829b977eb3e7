"""C02: sentence boundaries."""
from conform import Session
import dicts, work, words

LAWS = """INIT Init
NEXT Next
INVARIANT SentLaws
CONSTANTS Alphabet = {97, 66, 49, 32, 46, 44, 45, 58, 34, 33, 8230}
          MaxLen = %d
CHECK_DEADLOCK FALSE
"""
ALPHA = "aB1 .,-:\"!\u2026\u201c"
FRAG = ["koira", "Koira", "KOIRA", "esim.", "Esim.", "ESIM.", "jne.", "ym.", "A.", "a.", "\u00c5.", "K.", "1.", "12.", "1.-3.", "4.5.", "-.", "3.a", "koira.", "b.b.", "...", "..", "....", "\u2026", "!", "?", "?!", ":", "\"", "\u201d", "\u00bb",
        "\u201c", "'", "\",", "\".", "!\"", ".\"", "?\",", ",", ";", "(", ")", " ", " ", " ", " ", "\n", "\u00a0", "  ", "http://a.fi", "a@b.fi", "a@b.fi.", "-", "\u2013", "sa\u00adna.", "e\u00adsim.", "\u0161.", "esi-.", "linja-auto.", "lais-.", "-aho-.", "#", "%", "$1.5", "aho.", "koi-ra."]


def check(ctx):
    rng = ctx.rng
    ctx.model("MCTokens", LAWS % ctx.n(4, 5), workers=8, what="laws of the sentence split for every text over 11 character classes up to the length, with a dictionary that knows every or no word")
    lex = words.core_lexicon()
    for w in ("esim.", "jne.", "ym."):
        lex.setdefault(w, ["[La][Xp]%s[X]%s" % (w, w)])
    lex["a."] = ["[La][Xp]a.[X]a."]
    lex["b.b."] = ["[La][Xp]b.b.[X]b.b."]
    lex["aho."] = ["[Lep][Xp]Aho.[X]aho."]
    d = dicts.FinnishDict("abbr", lex)
    root = ctx.write_dicts([d, dicts.tiny()])
    texts = list(work.strings(ALPHA, 3))
    texts += ["".join(rng.choice(ALPHA) for _ in range(rng.randint(4, 11))) for _ in range(ctx.n(9000, 90000))]
    texts += ["".join(rng.choice(FRAG) for _ in range(rng.randint(2, 14))) for _ in range(ctx.n(14000, 140000))]
    texts += ["".join(rng.choice(FRAG) for _ in range(200)) for _ in range(ctx.n(20, 200))]
    ss = []
    for k, part in enumerate(work.split(texts, 32)):
        s = Session("texts")
        s.open("abbr", d.lang, root)
        for i, t in enumerate(part):
            if i % 200 == 0:
                words.random_options(rng, s, n=2)
            s.text("sent", t, mode="zxg"[(i + k) % 3])
        ss.append(s)
    ctx.validate(ss, root)
