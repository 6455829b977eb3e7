"""C10: enumeration of grammar errors: start positions, skip counts, repeated and interleaved queries."""
from conform import Session
import dicts, work, c11


def family(rng, ws):
    """paragraphs that are easily mistaken for each other: common prefixes and suffixes, same length, same words"""
    t = c11.paragraph(rng, ws)
    while len(t) < 6:
        t += rng.choice([" ", ". "]) + c11.paragraph(rng, ws)
    t = t[:220]
    r = [t]
    p = rng.randint(1, len(t) - 1)
    r.append(t[:p])                                             # a prefix
    r.append(t[p:])
    r.append(t + rng.choice([" ", ".", "!", "  on", " koira koira.", "\u00ad", "a"]))
    r.append(t[:p] + rng.choice("a ,.A-\"") + t[p + 1:])       # same length
    r.append(t[:-1] + rng.choice("a ,.!"))
    r.append(t.swapcase() if len(t.swapcase()) == len(t) else t.lower())
    r.append(t + " " + t)
    r.append(t.replace(" ", "  ", 1))
    r.append(rng.choice([" ", "", "a"]) + c11.sentence(rng, ws))
    return [x for x in r if x]


def check(ctx):
    rng = ctx.rng
    ds = c11.make_dicts(rng, 5)
    root = ctx.write_dicts(ds)
    ss = []
    for d in ds:
        ws = list(d.lex)
        for part in range(4):
            s = Session("queries")
            for h in (0, 1):
                s.open(d.name, d.lang, root, h=h)
            for i in range(ctx.n(28, 300)):
                fam = family(rng, ws)
                if rng.random() < .5:
                    c11.options(rng, s, h=rng.randint(0, 1))
                cur = rng.choice(fam)
                for j in range(ctx.n(18, 24)):
                    if rng.random() < .45:
                        cur = rng.choice(fam)
                    h = 0 if rng.random() < .85 else 1
                    mode = rng.choice("zzxg")
                    k = rng.random()
                    n = len(cur)
                    start = rng.choice([0, 0, 0, 1, n - 1, n, n + 1, rng.randint(0, n), rng.randint(0, n), rng.randint(0, n), 100000])
                    if k < .3:
                        s.gramall(cur, h=h, mode=mode, startpos=start)
                    elif k < .85:
                        s.gram(cur, start, rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 1000]), h=h, mode=mode)
                    elif k < .92:
                        b = list(cur.encode("utf-8"))
                        s.gram(b, start, rng.choice([0, 1, 2]), h=h, mode=mode, bytes_=True)
                    elif k < .95:
                        s.gramall(list(cur.encode("utf-8")), h=h, mode=mode, startpos=start, bytes_=True)
                    elif k < .97:
                        c11.options(rng, s, h=h)
                    elif k < .98:
                        s.text(rng.choice(["tok", "sent"]), cur, h=h)
                    else:
                        s.word("spell", rng.choice(ws), h=h)
            ss.append(s)
    # every position and skip count of some texts, in a random order
    for d in ds:
        ws = list(d.lex)
        s = Session("grid")
        s.open(d.name, d.lang, root)
        for i in range(ctx.n(6, 40)):
            t = " ".join(c11.sentence(rng, ws) for _ in range(2))[:60]
            q = [(p, k) for p in range(len(t) + 2) for k in range(5)]
            rng.shuffle(q)
            for p, k in q[:ctx.n(120, 400)]:
                s.gram(t, p, k, mode=rng.choice("zx"))
        ss.append(s)
    # many errors
    s = Session("many")
    s.open(ds[0].name, ds[0].lang, root)
    for t in ["a,b " * 40 + ".", "koira koira , " * 12, "Koira  on on,on. " * 30, "on on " * 100]:
        s.gramall(t)
        for k in list(range(0, 60)) + [99, 100, 101, 150, 200, 201, 255, 256, 300]:
            s.gram(t, 0, k, mode="zx"[k % 2])
        for p in range(0, len(t), 7):
            s.gram(t, p, p % 11)
    ss.append(s)
    ctx.validate(ss, root)
