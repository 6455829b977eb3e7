"""C26: spellers in ZHFST archives."""
import random
from conform import Session
import dicts, work, words

OPTS = [0, 1, 3, 6, 7, 10, 13]        # those that matter to spelling and suggestions
ALPHABETS = ["ak", "akt", "a\u00e4n", "s\u0161k", "abK", "\u00e1gA", "\u010d-a", "o'-"]


def some_word(rng, letters, lo=1, hi=5):
    return "".join(rng.choice(letters) for _ in range(rng.randint(lo, hi)))


def cased(rng, w):
    return rng.choice([w, w, w, w[:1].upper() + w[1:], w.upper(), w[:1] + w[1:].upper(), "".join(rng.choice([c, c.upper()]) for c in w)])


def speller(rng, name, n):
    letters = rng.choice(ALPHABETS)
    ws = {}
    for _ in range(n):
        w = cased(rng, some_word(rng, letters))
        # the same word with different capitals is of interest
        for x in {w} | ({cased(rng, w.lower())} if rng.random() < .4 else set()):
            if len(x) == len(w):
                ws[x] = rng.choice([0, 0, 1, 2, 8, 8, 40, rng.randint(0, 90), rng.randint(0, 700), rng.randint(0, 40000)])
    if rng.random() < .5:
        for w in rng.sample(sorted(ws), min(3, len(ws))):
            ws["-" + w if rng.random() < .5 else w + "-"] = 3
            ws["-" + w + "-"] = 4
            ws[w + "."] = 5
    pool = letters + letters.upper() + "x-."
    piece = lambda lo, hi: some_word(rng, pool, lo, hi)
    rules = {}
    for _ in range(rng.randint(2, 14)):
        a, b = rng.choice([(piece(1, 1), piece(1, 1)), (piece(1, 1), piece(1, 1)), ("", piece(1, 1)), (piece(1, 1), ""), (piece(2, 2), piece(2, 2)), (piece(2, 2), piece(1, 1)), (piece(1, 1), piece(2, 3))])
        if a != b:
            rules[a, b] = rng.choice([0, 1, 8, 8, 16, rng.randint(0, 90), rng.randint(0, 9000)])
    if rng.random() < .3:       # the case of the first letter
        for c in letters:
            if c.upper() != c and len(c.upper()) == 1:
                rules[c.upper(), c] = 1
    model = rng.random() > .1
    return dicts.HfstDict(name, ws, [(a, b, w) for (a, b), w in rules.items()], rng.choice([1, 1, 1, 2]), model=model), pool


def questions(rng, d, pool, n):
    ws = sorted(d.words)
    r = []
    for _ in range(n):
        k = rng.random()
        w = rng.choice(ws)
        if k < .25:
            w = words.cases(rng, w)
        elif k < .35:
            w = w.lower()
        elif k < .45:
            w = w.upper()
        elif k < .75:
            for _ in range(rng.randint(1, 2)):
                i = rng.randrange(len(w) + 1)
                w = w[:i] + rng.choice(["", some_word(rng, pool, 1, 1)]) + w[i + rng.randint(0, 1):]
            w = words.cases(rng, w) if w and rng.random() < .3 else w
        elif k < .85:
            w = some_word(rng, pool, 1, 6)
        elif k < .95:
            w = w + rng.choice([".", "-", "1", "\u2019", "\u2010", "\u00ad"])
        else:
            w = rng.choice(["", "\u20ac", "a\U0001d11ea", "k" * 255, "k" * 256, w * 30, "http://x.fi", "a@b.fi", "12"])
        r.append(w)
    return r


def check(ctx):
    rng = ctx.rng
    ds = []
    for i in range(ctx.n(150, 900)):
        q = random.Random(rng.random())
        ds.append(speller(q, "h%d" % i, q.randint(1, 14)))
    root = ctx.write_dicts([d for d, _ in ds])
    ss = []
    for d, pool in ds:
        s = Session("speller " + d.name)
        s.open(d.name, d.lang, root)
        for i, w in enumerate(questions(rng, d, pool, ctx.n(60, 200))):
            if i % 9 == 5:
                s.setb(rng.choice(OPTS), rng.randint(0, 1))
            c = rng.random() < .15
            s.word("spell", w, bytes_=c) if not c else s.word("spell", w.encode("utf-8"), bytes_=True)
            if d.model or rng.random() < .2:
                s.word("sugg", w, as_="suggh")
            k = rng.random()
            if k < .08:
                s.word("hyph", w)
            elif k < .14:
                s.word("ana", w)
            elif k < .2:
                t = " ".join(rng.sample(sorted(d.words), 1) + [w, rng.choice([".", "! ", w + ".", "Ja."]), rng.choice(sorted(d.words))])
                s.text(rng.choice(["tok", "sent"]), t)
                s.gramall(t)
        if rng.random() < .3:
            s.term()
            s.open(d.name, d.lang, root)
            s.word("spell", rng.choice(sorted(d.words)))
        ss.append(s)
    ctx.validate(ss, root)
