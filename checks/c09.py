"""C09: analyses."""
from conform import Session
import dicts, lexgen, work

LAWS = "INIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n"


def case_forms(rng, w):
    return [w, w.upper() if w.upper().lower() == w else w, w[:1].upper() + w[1:]][:rng.randint(1, 3)]


def check(ctx):
    rng = ctx.rng
    real = dicts.load_lexicon()
    ds = []
    for i, ws in enumerate(work.split(real, 8)):
        ds.append(dicts.FinnishDict("real%d" % i, {w: real[w] for w in ws}))
    for i in range(8):
        ds.append(dicts.FinnishDict("syn%d" % i, lexgen.lexicon(rng, ctx.n(250, 2500), outs=4)))
    # numerals
    for i in range(2):
        ds.append(dicts.FinnishDict("num%d" % i, numerals(rng, ctx.n(200, 1500))))
    # limits: length of a word, number of outputs
    ds.append(dicts.FinnishDict("limits", {"a" * 255: ["[Ln]" + "a" * 255], "a" * 256: ["[Ln]" + "a" * 256],
                                           **{"k" * (n - 90): ["[Ln][Xp]b%d[X]" % i + "k" * (n - 90) for i in range(n)] for n in (98, 99, 100, 101)}}))
    root = ctx.write_dicts(ds)
    lawful = ctx.scratch / "laws.json"
    lawful.write_text("{" + ",".join('"real%d":%s' % (i, (root / ("real%d.json" % i)).read_text()) for i in range(ctx.n(2, 8))) + "}")
    ctx.model("MCMorph", LAWS, env={"DICTS": str(lawful)}, what="laws of the analyses for the words of the harvested lexicon")
    ss = []
    for d in ds:
        s = Session(d.name)
        s.open(d.name, d.lang, root)
        for w in d.lex:
            for f in case_forms(rng, w):
                s.word("ana", f)
            if rng.random() < .1:
                s.word("ana", work.mutate(rng, w))
        ss.append(s)
    s = Session("attributes")
    s.open(ds[0].name, ds[0].lang, root)
    for a in ATTRS + ["", "STRUCTURE", "BASEFORM", "class", "CLASS ", "FSTOUTPUT", "WEIGHT", "XYZ"]:
        s.attr(a)
    s.word("ana", "")
    s.word("ana", "a" * 255)
    s.word("ana", "a" * 256)
    ss.append(s)
    ctx.validate(ss, root, chunk=8)


ATTRS = ["CLASS", "NUMBER", "COMPARISON", "FOCUS", "TENSE", "SIJAMUOTO", "MOOD", "PERSON", "PARTICIPLE", "NEGATIVE", "POSSESSIVE",
         "KYSYMYSLIITE", "MALAGA_VAPAA_JALKIOSA", "POSSIBLE_GEOGRAPHICAL_NAME", "REQUIRE_FOLLOWING_VERB"]

NUM = [("yksi", "[Lu][Xp]yksi[X]yk[Sn][Ny]si"), ("kaksi", "[Lu][Xp]kaksi[X]ka[Sn][Ny]ksi"), ("kolme", "[Lu][Xp]kolme[X]kolm[Sn][Ny]e"),
       ("kymment\u00e4", "kymment\u00e4"), ("sata", "[Lu][Xp]sata[X]sat[Sn][Ny]a"), ("toista", "toista"), ("kahden", "[Lu][Xp]kaksi[X]ka[Sg][Ny]hden"),
       ("kolmas", "[Lu][Xp]kolmas[X]kolma[Sn][Ny]s"), ("nen", "[Ll][Xj]nen[X]n[Sn][Ny]en"), ("10", "[Lu]10"), ("3", "[Lu]3"), ("vuotias", "[Ln][Xp]vuotias[X]vuotia[Sn][Ny]s")]


def numerals(rng, n):
    lex = {}
    while len(lex) < n:
        ps = [rng.choice(NUM) for _ in range(rng.randint(1, 4))]
        w, o = "", ""
        if rng.random() < .1:
            w, o = "-", "-[Bc]"
        for i, (a, b) in enumerate(ps):
            if i:
                if rng.random() < .2:
                    w += "-"
                    o += "-[Bh][Bc]" if rng.random() < .5 else "-[Bc]"
                else:
                    o += "[Bc]"
            w += a
            o += b
        lex.setdefault(w, []).append(o)
    return lex
