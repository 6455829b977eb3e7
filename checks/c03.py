"""C03: spelling."""
from conform import Session
import dicts, lexgen, work, words

LAWS = "INIT Init\nNEXT Next\nINVARIANT SpellLaws\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    rng = ctx.rng
    ds = [dicts.FinnishDict("core%d" % i, words.core_lexicon(rng, 60)) for i in range(4)]
    syn = []
    for i in range(4):
        lex = lexgen.lexicon(rng, 60, alphabet="aaskA".lower(), n=5, outs=3)
        lex.update({"ka": ["[Ln][Ivj]ka"]} if i % 2 else {})
        syn.append(dicts.FinnishDict("syn%d" % i, lex))
    real = dicts.load_lexicon()
    lim = dicts.FinnishDict("limits", {"a" * 255: ["[Ln]" + "a" * 255], "a" * 254: ["[Ln]" + "a" * 254], "\u00e4" * 255: ["[Ln]" + "\u00e4" * 255], "a" * 256: ["[Ln]" + "a" * 256]})
    root = ctx.write_dicts(ds + syn + [lim])
    lawful = ctx.scratch / "laws.json"
    lawful.write_text("{" + ",".join('"%s":%s' % (d.name, (root / (d.name + ".json")).read_text()) for d in ds) + "}")
    ctx.model("MCMorph", LAWS, env={"DICTS": str(lawful)}, what="every word of the lexicon is accepted in the letter case its structure requires")
    ss = []
    for d in ds:
        ws = list(d.lex)
        for part in range(8):
            s = Session("words")
            s.open(d.name, d.lang, root)
            for i in range(ctx.n(600, 6000)):
                if i % 25 == 0 and i:
                    words.random_options(rng, s)
                s.word("spell", rng.choice(words.NONWORDS) if rng.random() < .02 else words.word(rng, ws))
            ss.append(s)
    # exhaustive short words over a synthetic lexicon with ambiguous compounds
    for d in syn:
        all_ = [w for w in work.strings("ask-", ctx.n(5, 6))]
        rng.shuffle(all_)
        ws = list(d.lex)
        shy = []
        for _ in range(ctx.n(300, 3000)):
            w = rng.choice(ws)
            shy.append(words.hyphenate_somehow(rng, words.hyphenate_somehow(rng, w + rng.choice(["", rng.choice(ws)]))))
        for part in work.split(all_ + shy, 4):
            s = Session("exhaustive")
            s.open(d.name, d.lang, root)
            for i, w in enumerate(part):
                if i % 100 == 0 and i:
                    words.random_options(rng, s, only=[0, 6, 7, 11, 12])
                s.word("spell", words.cases(rng, w))
            ss.append(s)
    s = Session("limits")
    s.open("limits", lim.lang, root)
    for o in (None, 0, 12, 11, 1):
        if o is not None:
            s.setb(o, 1)
        for w in ["", "a" * 254, "a" * 255, "a" * 256, "\u00e4" * 255, "A" * 255, "A" + "a" * 254, "a" * 254 + ".", "a" * 255 + ".", "a\u0308" * 127 + "a", "a\u0308" * 128, "-" * 255, ".", "-", "1", "\u00ad", "\ufb03" * 255,
                  "a" * 100 + "-" + "a" * 154, "-", "--", "---", "----", "-.", "..", "\u2019", "\u2011"]:
            s.word("spell", w)
    ss.append(s)
    ctx.validate(ss, root)
