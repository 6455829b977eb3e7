"""C11: grammar rules."""
from conform import Session
import dicts, lexgen, work, words

PUNCT = [".", ".", ".", ".", ",", ",", "!", "?", ":", ";", "...", "\u2026", "\u2013", "\u2014", "-", "(", ")", "[", "]", "\"", "\"", "\u201d", "\u201d", "\u00bb", "\u201c", "'", "/", "&", "\u2019"]
WHITE = [" "] * 18 + ["  ", "\t", "\n", "\u00a0", " \t", "   ", ""]
FIXED = ["koira", "kissa", "ollut", "olleet", "sill\u00e4", "siin\u00e4", "miss\u00e4", "k\u00e4vi", "miten", "siin\u00e4kin", "vaan", "xyzzy", "1", "12", "1.2", "1.2.3", "iv", "XX", "a", "B", "A-rappu", "a:n", "Ab-rappu", "A-rappu", "http://www.a.fi", "x@y.fi", "2000-luku", "ko\u00adira", "-lainen", "ei", "en", "eik\u00e4", "enk\u00e4",
         "ja", "tai", "haluan", "alan", "juoda", "juomaan", "juo", "juon", "joisi", "juotu", "on", "Helsingin", "Helsinki", "Suomi", "yliopisto", "esim.", "\u00e4iti"]


# one, two or three characters, a separator, endings of several lengths; cases mixed
SHAPED = [b + m + e for b in ["A", "a", "Ab", "AB", "aB", "Abc", "\u00c4", "1"] for m in ["-", ":", ""] for e in ["n", "lle", "ssakin", "Lle"]]
PLACES = ["%s on koira.", "Koira on %s.", "Koira on %s koira.", "Koira. %s on.", "Koira, %s on.", "\"Koira %s\", on.", "\"%s on\".", "Koira on: %s.", "Koira (%s) on.", "KOIRA ON %s.", "\u2013 %s on.", "1. %s on koira"]


def feature_lexicon(rng, n=60):
    """words with every combination of what the rules look at"""
    lex = {}
    tags = {"t": lambda: "".join([rng.choice(["", "[Ira]", "[Irm]"]), "%s", rng.choice(["", "[Tt]", "[Tt]", "[Tt]", "[Te]", "[Tk]", "[Tn1]", "[Tn2]", "[Tn3]", "[Tn4]"]), rng.choice(["", "[P1]", "[P3]", "[P3]", "[P4]"]), rng.choice(["", "[Ef]", "[Ef]", "[Ef]", "[Et]", "[Eb]"]), rng.choice(["", "", "[Rm]"]), rng.choice(["", "", "[Sab]", "[Sill]"])])}
    i = 0
    while len(lex) < n:
        i += 1
        w = "".join(rng.choice("aeiou\u00e4") + rng.choice("klmnprst") for _ in range(2)) + rng.choice(["", "a", "\u00e4", "o", "i"])
        if rng.random() < .12:
            # one or two letters before a hyphen or a colon
            w = "".join(rng.choice("abkx") for _ in range(rng.choice([1, 1, 2]))) + rng.choice(["-" + w, ":" + w[-1], "-" + w])
        if w in lex:
            continue
        outs = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            c = rng.choice("t t t t t k k c c n n ep ee l s".split())
            if c == "t":
                o = "[Lt]" + tags["t"]() % w
            elif c in ("ep", "ee"):
                o = "[L%s][Xp]%s[X]%s%s[Ny]" % (c, w.capitalize(), w, rng.choice(["[Sn]", "[Sg]", "[Sg]", "[Sine]"]))
            elif c == "n":
                o = "[Ln]%s[Xp]%s[X]%s[S%s][Ny]" % (rng.choice(["", "", "[Ica]"]), w, w, rng.choice("ng"))
            elif c == "k":
                o = "[Lk]%s[P%s]" % (w, rng.choice("13"))
            else:
                o = "[L%s]%s" % (c, w)
            outs.append(o)
        lex[w] = outs
    return lex


def base_lexicon(rng):
    real = dicts.load_lexicon()
    lex = {w.lower(): real[w.lower()] for w in FIXED if w.lower() in real}
    hand = {"ollut": "[Lt]ollut[Ru]", "olleet": "[Lt]olleet[Ru]", "sill\u00e4": "[Lr]sill\u00e4", "siin\u00e4": "[Lr]siin\u00e4", "miss\u00e4": "[Lr]miss\u00e4", "k\u00e4vi": "[Lt]k\u00e4vi[Tt][Ai][P3][Ny][Ef]", "miten": "[Ls]miten",
            "vaan": "[Lc]vaan", "alan": "[Lt][Irm]alan[Tt][P1][Ef]", "juo": "[Lt]juo[Tt][P3][Eb]", "juon": "[Lt]juon[Tt][P1][Ef]", "joisi": "[Lt]joisi[Te][P3][Eb]", "yliopisto": "[Ln]yliopisto[Sn]", "esim.": "[La]esim.",
            "suomi": "[Lep][Xp]Suomi[X]suomi[Sn]", "\u00e4iti": "[Ln]\u00e4iti[Sn]", "koira": "[Ln]koira[Sn]", "kissa": "[Ln]kissa[Sn]", "tai": "[Lc]tai", "a-rappu": "[Ln]a-rappu[Sn]", "a:n": "[La]a:n", "ab-rappu": "[Ln]ab-rappu[Sn]", "a": "[La]a", "iv": "[Lur]iv", "helsinki": "[Lep][Xp]Helsinki[X]helsinki[Sn]"}
    for w in SHAPED:
        hand.setdefault(w.lower(), ("[La]%s" if ":" in w else "[Ln]%s[Sn]") % w.lower())
    for w, o in hand.items():
        lex.setdefault(w, [o])
    lex.update(feature_lexicon(rng))
    return lex


AUTO = {"joten kuten": "jotenkuten", "koiran kissa": "koirankissa", "tai koira": "taikoira", "kissa": "Kissa", "on on": "on", "a b": "ab", "\u00e4iti": "is\u00e4", "1 koira": "yksi koira", "juon, juo": "juon ja juo", "suomi ei": "suomiei", "siin\u00e4 miss\u00e4 on": "siell\u00e4"}


def token(rng, ws):
    w = rng.choice(FIXED) if rng.random() < .5 else rng.choice(ws)
    if rng.random() < .06:
        w = rng.choice(["joten", "kuten", "kissan", "koiran", "b", "c"])
    k = rng.random()
    if k < .12:
        w = w.upper() if len(w.upper()) == len(w) else w
    elif k < .3:
        w = w[:1].upper() + w[1:]
    elif k < .33 and len(w) > 1:
        p = rng.randint(1, len(w) - 1)
        w = w[:p] + "\u00ad" + w[p:]
    return w


def sentence(rng, ws):
    r = []
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
    last = ""
    for i in range(n):
        if rng.random() < .06:
            r.append(rng.choice(PUNCT))
        w = last if last and rng.random() < .07 else token(rng, ws)
        if i == 0 and rng.random() < .7:
            w = w[:1].upper() + w[1:]
        r.append(w)
        last = rng.choice([w, w, w.lower(), w.capitalize()])
        if i < n - 1:
            if rng.random() < .14:
                r.append(rng.choice(PUNCT))
            r.append(rng.choice(WHITE))
    r.append(rng.choice([".", ".", ".", "!", "?", ":", "...", "", ".\"", "\"", "\",", ".\",", "!\u201d,", " .", ")", ").", "\u2026"]))
    return "".join(r)


def phrase(rng, auto):
    """one of the phrases, written in some equivalent way"""
    w = rng.choice(list(auto))
    w = "".join(c + "\u00ad" if rng.random() < .08 else rng.choice([" ", "  ", "\t", "\u00a0"]) if c == " " and rng.random() < .4 else c for c in w)
    if rng.random() < .4:
        w = w[:1].upper() + w[1:]
    return w + rng.choice(["", "", "", "n", "-", "\u00ad", "\u00adn"])


def paragraph(rng, ws, auto=AUTO):
    k = rng.random()
    if k < .08:
        return "".join(rng.choice(PUNCT + [" ", " ", "a", "B", "1", "-", "koira", "\t", "XX"]) for _ in range(rng.randint(1, 12)))
    if k < .18:
        return " ".join(rng.choice(ws) for _ in range(rng.randint(0, 3))) + rng.choice([" ", "  ", ". ", "\u00ad "]) + phrase(rng, auto) + rng.choice([".", " ", " koira.", "  ja " + phrase(rng, auto)])
    if k < .22:
        return rng.choice(["1) ", "A) ", "iv) ", "1.2. ", "1.2 ", "- ", "* ", "(a) ", "[1] ", "\u2013 ", "1.", "(1)"]) + " ".join(sentence(rng, ws) for _ in range(rng.randint(1, 2)))
    if k < .26:
        return phrase(rng, auto) + " " + sentence(rng, ws)
    return rng.choice(["", "", "", "", "\"", "\u201d", "(", " ", "-"]) + rng.choice([" ", " ", " ", "  ", ""]).join(sentence(rng, ws) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))) + rng.choice(["", "", "", " "])


def options(rng, s, h=0):
    for _ in range(rng.randint(1, 3)):
        s.setb(rng.choice([13, 14, 16, 13, 14, 16, 0, 11]), rng.randint(0, 1), h=h)


def make_dicts(rng, n):
    ds = []
    for i in range(n):
        d = dicts.FinnishDict("gram%d" % i, base_lexicon(rng), auto=dict(AUTO))
        ds.append(d)
    return ds


def limits(rng, s):
    s.gramall("Koira " + "on " * 248 + ".")
    s.gramall("Koira " + "on " * 249 + ".")
    s.gramall("Koira " + "a " * 247 + "on.")
    for n in (199, 200, 201, 205):
        s.gramall("Koira juo. " * n)
        s.gramall("koira juo. " * n + "koira")
        s.gramall("Koira on. " * n + "kissa kissa")
    s.gramall("Koira" * 51 + " on.")
    s.gramall("Koira" * 52 + " on.")
    for c in " \t\n.,!?:;()[]\"\u201c\u201d'-\u00ad\u2026aA1$":
        s.gramall(c)
        s.gramall(c + c)
        s.gramall(c + " " + c)
        s.gramall("a " + c)
        s.gramall(c + " a")


def check(ctx):
    rng = ctx.rng
    ds = make_dicts(rng, 6)
    root = ctx.write_dicts(ds)
    ss = []
    for d in ds:
        ws = list(d.lex)
        for part in range(4):
            s = Session("paragraphs")
            s.open(d.name, d.lang, root)
            for i in range(ctx.n(330, 3300)):
                if i % 15 == 14:
                    options(rng, s)
                s.gramall(paragraph(rng, ws), mode="zxg"[i % 3])
            ss.append(s)
    s = Session("limits")
    s.open(ds[0].name, ds[0].lang, root)
    limits(rng, s)
    ss.append(s)
    # words of every shape, in every place
    for part in work.split([c % w for w in SHAPED for c in PLACES], 4):
        s = Session("shapes")
        s.open(ds[2].name, ds[2].lang, root)
        for i, t in enumerate(part):
            s.gramall(t, mode="zxg"[i % 3])
        ss.append(s)
    # every sequence of a few kinds of tokens
    toks = ["on ", "On ", "ei ", ", ", ". ", "\" ", ") ", "1 "]
    for part in work.split(["".join(t) for n in (1, 2, 3, ctx.n(3, 4)) for t in __import__("itertools").product(toks, repeat=n)], 8):
        s = Session("exhaustive")
        s.open(ds[1].name, ds[1].lang, root)
        for i, t in enumerate(part):
            if i % 40 == 39:
                options(rng, s)
            s.gramall(t if i % 2 else t.rstrip())
        ss.append(s)
    ctx.validate(ss, root)
