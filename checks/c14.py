"""C14: options."""
from conform import Session
import dicts, words, c11, c05, c02

OPTS = words.BOOL
UNKNOWN = [2, 5, 9, 17, 18, 19, 20, 21, 31, 32, 64, 100, 255, 256, 65536, 1000000, -1, -2, -2147483648, 2147483647, 65536 + 1, 256 + 7]
UNKNOWN_INT = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 18, 19, 100, -1, -9, 265, 65545, 2147483647, -2147483648]
# inputs whose answers the options decide about: (function, text)
SENSITIVE = {
    0: [("spell", "koira."), ("spell", "Koira."), ("spell", "KOIRA."), ("hyph", "koira."), ("hyph", "kissakoira."), ("sugg", "koirra."), ("sugg", "ko."), ("tok", "koira. on."), ("tok", "esim. 1."), ("sent", "Esim. koira. Kissa."), ("spell", "esim."), ("spell", "koira.."), ("spell", "a.")],
    1: [("spell", "koira1"), ("spell", "xx1y"), ("spell", "1"), ("spell", "k0ira"), ("spell", "\u00bd")],
    3: [("spell", "XYZZY"), ("spell", "XYZZY."), ("spell", "XyZZY"), ("spell", "X-Y"), ("spell", "KISSAKOIRAT1"), ("spell", "KOIRA"), ("spell", "QQ")],
    4: [("hyph", "kissa"), ("hyph", "ilta"), ("hyph", "syysilta"), ("hyph", "koiralla"), ("hyph", "xyzzykoira"), ("hyph", "uusi"), ("hyph", "linja-auto"), ("hyph", "isoaho")],
    6: [("spell", "Koira"), ("spell", "Helsinki"), ("spell", "helsinki"), ("spell", "KOira"), ("spell", "-Koira"), ("spell", "Linja-auto"), ("spell", "\u00c4lä"), ("sugg", "Koirra"), ("spell", "Koira.")],
    7: [("spell", "KOIRA"), ("spell", "HELSINKI"), ("spell", "LINJA-AUTO"), ("sugg", "KOIRRA"), ("sugg", "HELSNKI"), ("spell", "KOIRa"), ("spell", "K")],
    8: [("sugg", "k0ira"), ("sugg", "kolra"), ("sugg", "koirra"), ("sugg", "ko_ra"), ("sugg", "kojra")],
    10: [("spell", "http://a.fi"), ("spell", "www.a.fi"), ("spell", "x@y.fi"), ("spell", "a//b.c"), ("spell", "x@y")],
    11: [("spell", "kissa-koira"), ("spell", "syys-ilta"), ("spell", "syy-silta"), ("spell", "pop-opisto"), ("spell", "linja-auto"), ("spell", "esi-is\u00e4"), ("sent", "Kissa-koira. Koira."), ("gramall", "Kissa-koira on. kissa."), ("sugg", "kissa-koirra")],
    12: [("spell", "linjaauto"), ("spell", "esi"), ("spell", "ulko"), ("spell", "talo"), ("spell", "-koira"), ("spell", "koira-"), ("spell", "lainen"), ("spell", "lais"), ("spell", "aho"), ("spell", "Lais")],
    13: [("gramall", "Koira kissa"), ("gramall", "koira on"), ("gramall", "Koira on. Kissa"), ("gramall", "1.2 Koira on"), ("gramall", "1.2 koira juo."), ("gramall", "Kissa koira talo.")],
    14: [("gramall", "Koira on"), ("gramall", "Koira on kissa ja"), ("gramall", "Koira on ja. Kissa on ja"), ("gramall", "Koira  on ")],
    15: [("hyph", "xyzzykoira"), ("hyph", "qwertalo"), ("hyph", "koira"), ("hyph", "asuukia"), ("hyph", "koirakoirq"), ("hyph", "oo-aha")],
    16: [("gramall", "- koira juo"), ("gramall", "koira juo"), ("gramall", "koira juo,"), ("gramall", "1) koira on. kissa"), ("gramall", "on koira ja")],
    9: [("hyph", "kissa"), ("hyph", "koira"), ("hyph", "linja-auto"), ("hyph", "syysilta"), ("hyph", "iltakoira"), ("hyph", "xyz"), ("hyph", "xaxaxaxaxaxa")],
    17: [("spell", "koira"), ("spell", "kaira"), ("spell", "Koira")],
}
NEUTRAL = [("ana", "koira"), ("ana", "Koira"), ("ana", "linja-auto"), ("ana", "koira."), ("tok", "koira, 1.2 \"a\"."), ("sent", "Koira on. \"A!\" Kissa: on? 1. a."), ("spell", "kissa"), ("hyph", "kissakoira"), ("sugg", "kisssa"), ("gramall", "Koira on on , juo."), ("gramall", "Koira  on. kissa")]
POOL = [p for l in SENSITIVE.values() for p in l] + NEUTRAL
CHEAP = [p for p in POOL if p[0] != "sugg"]


def probe(s, p, h=0):
    op, t = p
    if op in ("tok", "sent"):
        s.text(op, t, h=h)
    elif op == "gramall":
        s.gramall(t, h=h)
    else:
        s.word(op, t, h=h)


def check(ctx):
    rng = ctx.rng
    lex = words.core_lexicon(rng, 150)
    g = c11.base_lexicon(rng)
    for w, o in g.items():
        lex.setdefault(w, o)
    d = dicts.FinnishDict("opts", lex, auto=dict(c11.AUTO))
    d2 = dicts.FinnishDict("opts2", words.core_lexicon(rng, 40))
    root = ctx.write_dicts([d, d2])
    ss = []
    # the defaults, and each option alone: on, probed, off, probed
    for part in range(8):
        s = Session("each")
        for k in OPTS[part::8]:
            s.open(d.name, d.lang, root)
            for v in (None, 1, 0, 1, 1, 0, 2, 0, -1, 256, 0, 0, -2147483648):
                if v is not None:
                    s.setb(k, v)
                pool = POOL if v in (None, 1, 2) else CHEAP
                for p in SENSITIVE[k] + rng.sample(pool, min(len(pool), ctx.n(14, 60))):
                    probe(s, p)
            s.term()
        ss.append(s)
    # the same question before and after each change, with nothing in between
    for part in range(8):
        s = Session("again")
        s.open(d.name, d.lang, root)
        for k in OPTS[part::8]:
            for p in SENSITIVE[k]:
                probe(s, p)
                for v in (1, 0, 1, 0) if p[0] != "sugg" else (1, 0):
                    s.setb(k, v)
                    probe(s, p)
                s.setb(k, 1 if k in (6, 7, 10, 15) else 0)
        for p in CHEAP[part::8]:
            probe(s, p)
            for _ in range(ctx.n(5, 40)):
                s.setb(rng.choice([0, 11, 12, 13, 14, 16] if p[0] == "gramall" else OPTS), rng.randint(0, 1))
                probe(s, p)
        ss.append(s)
    s = Session("integers")
    s.open(d.name, d.lang, root)
    for p in POOL:
        probe(s, p)
    for v in [2, 3, 4, 5, 6, 7, 8, 12, 13, 20, 100, 255, 256, 2147483647, 2, 1, 0, 2]:      # negative lengths have no meaning
        s.seti(9, v)
        for p in SENSITIVE[9] + rng.sample(CHEAP, 8):
            probe(s, p)
    for v in [0, 1, 2, -1, 0, 3, -5, 5, -1, -1, 2, 2, 0]:
        s.seti(17, v)
        for p in [x for x in CHEAP if x[0] == "spell"]:
            probe(s, p)
    for k in UNKNOWN:
        s.setb(k, rng.choice([0, 1, 5]))
        for p in rng.sample(CHEAP, 10):
            probe(s, p)
    for k in UNKNOWN_INT:
        s.seti(k, rng.choice([0, 1, 5, -1]))
        for p in rng.sample(CHEAP, 10):
            probe(s, p)
    ss.append(s)
    # every ordered pair of option settings
    pairs = [(a, va, b, vb) for a in OPTS for b in OPTS if a != b for va in (0, 1) for vb in (0, 1)]
    rng.shuffle(pairs)
    pairs = pairs[:ctx.n(360, len(pairs))]
    for part in range(12):
        s = Session("pairs")
        s.open(d.name, d.lang, root)
        for a, va, b, vb in pairs[part::12]:
            s.setb(a, va)
            s.setb(b, vb)
            for k in (a, b):
                for p in rng.sample([x for x in SENSITIVE[k] if x[0] != "sugg"] or SENSITIVE[k][:1], 1) + rng.sample(CHEAP, 4):
                    probe(s, p)
        ss.append(s)
    # histories over several handles
    for part in range(12):
        s = Session("handles")
        up = set()
        for i in range(ctx.n(420, 4000)):
            if len(up) < 2 or (rng.random() < .02 and len(up) < 5):
                h = rng.choice([x for x in range(6) if x not in up])
                dd = d if rng.random() < .8 else d2
                s.open(dd.name, dd.lang, root, h=h)
                up.add(h)
                for p in rng.sample(CHEAP, 6):
                    probe(s, p, h)
            h = rng.choice(sorted(up))
            k = rng.random()
            if k < .02 and len(up) > 2:
                s.term(h)
                up.discard(h)
            elif k < .22:
                s.setb(rng.choice(OPTS), rng.choice([0, 1]), h=h)
            elif k < .25:
                s.seti(*rng.choice([(9, rng.choice([0, 1, 2, 3, 4, 6])), (17, rng.choice([-1, 0, 1, 2, 3]))]), h=h)
            elif k < .26:
                s.setb(rng.choice(UNKNOWN), rng.randint(0, 1), h=h)
            else:
                probe(s, rng.choice(CHEAP if rng.random() < .97 else POOL), h)
        ss.append(s)
    ctx.validate(ss, root)
