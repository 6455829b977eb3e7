"""Dictionaries and words shared by the checks of spelling, hyphenation, suggestions and options."""
import dicts, lexgen, work

BOOL = [0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16]

# words whose hyphens, capitals and endings exercise the rules of compounds
CORE = """koira koirat koiralla kissa kissakoira syy silta syysilta syys ilta pop opisto popopisto poikki linja-auto auto kirja arvostelu
kirja-arvostelu kirjaarvostelu ulko- -talo talo esi- ja sana lause että ei eu eu:n eu-maa maa pdf-tiedosto tv tv:n xx helsinki helsingissä matti virtanen
suomi pohjois-suomi uusi-seelanti uusi seelanti iso-britannia isolla-britannialla kaksi kaksikymmentä 10 10-vuotias 2000-luku rock-yhtye opetusministeriö
maatalousministeriö hyvin hyvä parempi kaunis punainen sininen esi-isä isä ääri-ilmiö ilmiö nato atk wc c-vitamiini juotu juotava haluan haluavat juoda juomaan
vaa'an vaaka rei'itin on ollut olla olen en emme eivät älä esim. jne. ym. klo""".split()

# ambiguous and free-standing parts: the hyphen rules of compounds
HYPHENS = {
    "syysilta": ["[Ln][Xp]syy[X]syy[Sn][Ny]s[Bh][Bc][Ln][Xp]ilta[X]ilt[Sn][Ny]a", "[Ln][Xp]syy[X]syy[Sn][Ny][Bh][Bc][Ln][Xp]silta[X]silt[Sn][Ny]a"],
    "popopisto": ["[Ln][Xp]pop[X]po[Sn][Ny]p[Bh][Bc][Ln][Xp]opisto[X]opist[Sn][Ny]o"],
    "poppopisto": ["[Ln][Xp]pop[X]po[Sn][Ny]pp[Bh][Bc][Ln][Xp]opisto[X]opist[Sn][Ny]o"],
    "alaala": ["[Ln][Xp]ala[X]al[Sn][Ny]a[Bh][Bc][Ln][Xp]ala[X]al[Sn][Ny]a", "[Ln][Xp]alaala[X]alaal[Sn][Ny]a"],
    "sana": ["[Ln][Ivj][Xp]sana[X]san[Sn][Ny]a"],
    "lause": ["[Ln][Ivj][Xp]lause[X]laus[Sn][Ny]e"],
    "maala": ["[Ln][Xp]maala[X]maal[Sn][Ny]a", "[Ln][Xp]maa[X]ma[Sn][Ny]a[Bh][Bc][Ln][Xp]la[X]l[Sn][Ny]a"],
    "Uusimaa".lower(): ["[Lep][Xp]Uusimaa[X]uusima[Sn][Ny]a"],
    "mcdonald": ["[Les][Xr]ipippppp[X][Xp]McDonald[X]mcdonal[Sn][Ny]d"],
    "ja": ["[Lc]ja"], "pop": ["[Ln][Xp]pop[X]po[Sn][Ny]p"], "ala": ["[Ln][Xp]ala[X]al[Sn][Ny]a"],
    "-lainen": ["-[Bc][Ll][Xp]lainen[X]laine[Sn][Ny]n"], "lais-": ["[Lp]lais-"], "-aho-": ["-[Bc][Ln][Xp]aho[X]aho[Bh][Bc]-"],
}


def core_lexicon(rng=None, extra=0):
    real = dicts.load_lexicon()
    lex = {w: real[w] for w in CORE if w in real}
    for w, o in HYPHENS.items():
        lex[w] = o
    if extra:
        ks = [w for w in real if w not in lex]
        for w in rng.sample(ks, extra):
            lex[w] = real[w]
    return lex


def cases(rng, w):
    k = rng.randint(0, 6)
    if k <= 2:
        return w
    if k == 3:
        return w[:1].upper() + w[1:]
    if k == 4:
        u = w.upper()
        return u if len(u) == len(w) else w
    if k == 5:
        return "-".join(p[:1].upper() + p[1:] for p in w.split("-"))
    return "".join(c.upper() if rng.random() < .4 and len(c.upper()) == 1 else c for c in w)


def hyphenate_somehow(rng, w):
    k = rng.randint(0, 9)
    p = rng.randint(0, len(w))
    if k == 0:
        return w[:p] + "-" + w[p:]
    if k == 1:
        return w[:p] + "\u00ad" + w[p:]
    if k == 2:
        return w.replace("-", "", 1)
    if k == 3:
        q = rng.randint(0, len(w))
        a, b = min(p, q), max(p, q)
        return w[:a] + rng.choice("-\u00ad") + w[a:b] + rng.choice("-\u00ad") + w[b:]
    if k == 4:
        return w.strip("-")
    if k == 5:
        return "-" * rng.randint(0, 1) + w + "-" * rng.randint(0, 1)
    return w


def endings(rng, w):
    k = rng.randint(0, 12)
    if k == 0:
        return w + "."
    if k == 1:
        return w + str(rng.randint(0, 9))
    if k == 2:
        return w + ".."
    if k == 3:
        return work.mutate(rng, w)
    return w


DECOMPOSE = {"\u00e4": "a\u0308", "\u00f6": "o\u0308", "\u00c4": "A\u0308", "\u00d6": "O\u0308", "\u00e5": "a\u030a", "\u0161": "s\u030c", "\u00e9": "e\u0301", "'": "\u2019", "-": "\u2010"}


def typography(rng, w):
    if rng.random() < .15:
        return "".join(DECOMPOSE.get(c, c) if rng.random() < .7 else "\u2011" if c == "-" else c for c in w)
    return w


def word(rng, ws):
    if rng.random() < .12:
        w = rng.choice(ws) + rng.choice(["", "-"]) + rng.choice(ws)
    else:
        w = rng.choice(ws)
    w = endings(rng, w)
    w = hyphenate_somehow(rng, w)
    return typography(rng, cases(rng, w))


NONWORDS = ["http://a.fi", "a//b.c", "www.a.fi", "www.fi", "www..fi", "www.a", "a@b.c", "a@.b", "x@y.fi.", "a//.b", "//a.b", "///.", "a@b", "@a.b", "ab//", "ab@", "www.abc.d", "a.b//c", "a.b@c"]


def random_options(rng, s, h=0, n=3, only=None):
    for _ in range(rng.randint(1, n)):
        s.setb(rng.choice(only or BOOL), rng.choice([0, 1, 1, 2]), h=h)
    if rng.random() < .2:
        s.seti(9, rng.choice([0, 1, 2, 3, 4, 5, 8]), h=h)
    if rng.random() < .2:
        s.seti(17, rng.choice([-1, 0, 1, 2]), h=h)
