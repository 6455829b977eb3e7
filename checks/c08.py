"""C08: lookups in transducers.  Random and adversarial transducers are written in the file format, given to the
specification as they are, and every lookup of the real library (analyser, speller, error model; weighted and not;
both byte orders) is compared with the paths that the specification enumerates."""
import random
import dicts, vfst
from conform import Session

FLAGS = ["@P.A.x@", "@P.A.y@", "@U.A.x@", "@U.A.y@", "@U.B.x@", "@R.A.x@", "@R.A@", "@R.B@", "@D.A.x@", "@D.A@", "@D.B.x@",
         "@C.A@", "@C.B@", "@P.B.z@", "@R.B.z@", "@U.C.x@", "@D.C@", "@P.C.y@"]
TAGS = ["[x]", "[Ln]", "[tag with blanks]", "[ä]"]


def random_fst(r, weighted=True, letters="abcä", n=None, flags=0.3, outs=True, tags=True, out=None):
    """Flag and epsilon transitions only go forwards, so that there are finitely many paths"""
    f = vfst.Fst(weighted)
    n = n or r.randint(2, 7)
    for _ in range(n - 1):
        f.state()
    w = (lambda: r.choice([0, 1, 2, 5, 10, 30, 100, 277])) if weighted else (lambda: 0)
    fl = r.sample(FLAGS, min(len(FLAGS), r.randint(2, 8)))
    o = out or (lambda c: r.choice([c, c, c, "", r.choice(letters)] + ([r.choice(TAGS)] if tags else [])) if outs else "")
    for s in range(n):
        for _ in range(r.choice([1, 2, 2, 3, 4, 6])):
            c = r.choice(letters)
            f.arc(s, c, o(c), r.randrange(n), w())
        if s + 1 < n:
            for _ in range(r.choice([0, 0, 1, 2])):
                f.arc(s, "", o("") if outs else "", r.randrange(s + 1, n), w())
            for _ in range(r.choice([0, 1, 2, 3, 4]) if r.random() < 3 * flags else 0):
                f.arc(s, r.choice(fl), r.choice(["", r.choice(letters)]) if outs else "", r.randrange(s + 1, n), w())
        if r.random() < 0.35 or s == n - 1:
            f.accept(s, w())
    f.extra_symbols = list(r.sample("qwz", r.randint(0, 2))) + (["[unused]"] if r.random() < 0.5 else [])
    return f


def wide_fst(r, weighted=True, finnish=False):
    """States with very many transitions: around the limit of the counter in the transition, and far beyond"""
    alphabet = [chr(c) for c in range(0x4E00, 0x4E00 + 400)] + list("abcdefg")
    f = vfst.Fst(weighted)
    k = r.choice([253, 254, 255, 256, 257, 300, 511, 513, 900])
    w = (lambda: r.randrange(300)) if weighted else (lambda: 0)
    ends = [f.state() for _ in range(3)]
    s = 0
    if finnish:
        s = f.state()
        f.arc(0, "", "[Ln]", s)
    done = set()
    first = r.choice(["final", "eps", "flag", "none"])
    extra = 0
    if first == "final":
        f.accept(s, w())
        extra = 1
    elif first == "eps":
        f.arc(s, "", "" if finnish else "q", ends[0], w())
        extra = 1
    elif first == "flag":
        f.arc(s, "@P.A.x@", "", ends[0], w())
        extra = 1
    for _ in range(k + 1 - extra):
        c = r.choice(alphabet[:r.choice([3, 100, 407])])
        t = r.choice(ends)
        if (c, t) in done and r.random() < 0.9:
            c = r.choice(alphabet)
        done.add((c, t))
        f.arc(s, c, c if finnish else r.choice([c, "a", "[t]", ""]), t, w())
    for e in ends[:2]:
        t = f.state()
        f.arc(e, "", "[Sn]" if e == ends[0] else "[Sg]", t, w())
        f.accept(t, w())
    f.arc(ends[2], "a", "a" if finnish else "", s, w())
    f.arc(ends[2], "@R.A.x@", "", ends[0], w())
    f.extra_symbols = [alphabet[-1], "z"]
    return f, alphabet


def finnish_fst(r, n=None):
    """Class tag, letters with flags between them, case tags: every output is an analysis"""
    f = random_fst(r, False, flags=0.5, n=n, out=lambda c: c, letters="aksä")
    # shift: a new start state with the class, and a case at the end of each final state
    g = vfst.Fst(False)
    base = [g.state() for _ in f.tr]
    for t in r.sample(["[Ln]", "[Ll]", "[Lt]", "[Lu]"], r.randint(1, 3)):
        g.arc(0, "" if r.random() < 0.7 else r.choice(FLAGS), t, base[0])
    for s, l in enumerate(f.tr):
        for i, o, t, w in l:
            g.arc(base[s], i, i if len(i) == 1 else "", base[t])
    cases = ["[Sn]", "[Sg]", "[Sp]", "[Sine]"]
    for s in f.final:
        for c in r.sample(cases, r.randint(1, 2)):
            e = g.state()
            x = "" if r.random() < 0.5 else r.choice(FLAGS)
            m = g.state()
            g.arc(base[s], x, c, m)
            g.arc(m, "", r.choice(["[Ny]", "[Nm]"]), e)
            g.accept(e)
    return g


def walk(r, f, maxlen=12):
    """A word along a random path"""
    s, w = 0, ""
    for _ in range(30):
        if not f.tr[s] or len(w) >= maxlen or (s in f.final and r.random() < 0.3):
            break
        i, o, s, _ = r.choice(f.tr[s])
        w += i if len(i) == 1 else ""
    return w


def small(f, w):
    z = f.size(w)
    return z is not None


def words_for(r, f, letters, n):
    ws = {""}
    for _ in range(n * 3):
        w = walk(r, f)
        if r.random() < 0.3:
            w = "".join(r.choice(letters) for _ in range(r.randint(1, 6)))
        if r.random() < 0.15 and w:
            k = r.randrange(len(w))
            w = w[:k] + r.choice(list(letters) + ["q", "ö", "Z", ""]) + w[k + 1:]
        if len(ws) < n and len(w) < 40 and small(f, w.lower()) and small(f, w) and small(f, w[:1].upper() + w[1:]):
            ws.add(w)
    return sorted(ws)


def error_model(r, letters):
    """Some edits with weights; the outputs are characters"""
    e = vfst.Fst(True)
    n = r.randint(1, 3)
    st = [0] + [e.state() for _ in range(n - 1)]
    for s in st:
        for c in letters:
            e.arc(s, c, c, s, 0)
    for a, b in zip(st, st[1:]):
        for _ in range(r.randint(3, 9)):
            k = r.random()
            x, y = r.choice(letters), r.choice(letters)
            w = r.choice([1, 2, 3, 7, 7, 20])
            if k < 0.5:
                e.arc(a, x, y, b, w)
            elif k < 0.7:
                e.arc(a, x, "", b, w)
            elif k < 0.85:
                e.arc(a, "", y, b, w)
            else:
                m = e.state()
                e.arc(a, r.choice(FLAGS[:9]), "", m, w)
                e.arc(m, x, y, b, w)
    for s in st:
        if r.random() < 0.7 or s == st[-1]:
            if r.random() < 0.3:
                m = e.state()
                e.arc(s, r.choice(FLAGS[:9]), "", m, 1)
                e.accept(m, 3)
            e.accept(s, r.choice([0, 1, 2]))
    return e


def cost(e, f, w):
    """Steps of finding all suggestions for a word"""
    outs = set()
    n = (e.size(w, 6000, 1500, outs) or (0, 99999))[1]
    return n + sum((f.size(x, 3000, 400) or (0, 3000))[1] for x in outs)


def cut_fsts(r):
    """Enumerations without an end, or longer than the limits: (transducer, words)"""
    res = []
    # a cycle of flags, with output, around a final state
    f = vfst.Fst(True)
    a, b = f.state(), f.state()
    f.arc(0, "a", "a", a, 1)
    f.arc(a, "@P.A.x@", "x", b, 1)
    f.arc(b, "", "", a, 1)
    f.accept(a, 2)
    f.arc(0, "b", "b", b, 1)
    f.arc(0, "@R.A@", "", b)
    f.arc(a, "c", "c", 0)
    f.arc(0, "d", "d", b)
    res.append((f, ["a", "b", "ab", "", "d", "aca", "acd", "c"]))
    # an epsilon cycle
    f = vfst.Fst(True)
    a = f.state()
    f.arc(0, "", "e", a)
    f.arc(a, "", "f", 0)
    f.arc(0, "a", "a", a)
    f.accept(a)
    f.accept(0)
    res.append((f, ["", "a", "aa", "aaa"]))
    # exponentially many paths, few or none of them accepted
    f = vfst.Fst(True)
    s = 0
    for k in range(20):
        t = f.state()
        f.arc(s, "a", "a", t)
        f.arc(s, "a", "b", t)
        f.arc(s, "b", "b", t)
        s = t
    f.accept(s)
    t = f.state()
    f.arc(s, "a", "a", t)
    u = f.state()
    f.arc(t, "c", "", u)
    f.accept(u)
    res.append((f, ["a" * 20, "a" * 21, "a" * 21 + "c", "b" * 20, "b" * 7 + "a" * 6 + "b" * 7, "b" * 20 + "a" + "c"]))
    # outputs that are too long for the buffer
    f = vfst.Fst(True)
    big = "[" + "y" * 298 + "]"
    s = f.state()
    f.arc(0, "a", big, 0)
    f.arc(0, "b", "[" + "z" * 195 + "]", s)
    f.arc(0, "c", "[" + "z" * 196 + "]", s)
    f.arc(0, "d", "[" + "z" * 197 + "]", s)
    f.arc(0, "e", "[" + "z" * 198 + "]", s)
    f.accept(s)
    f.accept(0)
    res.append((f, ["a" * k for k in range(9)] + ["a" * 6 + c for c in "bcde"] + ["a" * 5 + c for c in "bcde"]))
    return res


def finnish_cut(r):
    """A Finnish morphology with a word whose analyses do not end, and flags that must not survive that"""
    f = vfst.Fst(False)
    s, a, b, c, e1, e2 = [f.state() for _ in range(6)]
    f.arc(0, "", "[Ln]", s)
    f.arc(s, "a", "a", a)
    f.arc(a, "", "[Sn]", e1)
    f.arc(e1, "", "[Ny]", e2)
    f.accept(e2)
    f.arc(a, r.choice(["@P.A.x@", "@U.A.x@"]), "", b)
    f.arc(b, r.choice(["@P.B.y@", "@U.B.z@", ""]), "", a)
    f.arc(a, "a", "a", a)
    for ch, fl in (("k", "@D.A@"), ("s", "@U.A.y@"), ("t", "@R.A@"), ("u", "@D.A.x@"), ("y", "@R.B@"), ("e", "@D.B@")):
        m = f.state()
        f.arc(s, ch, ch, m)
        f.arc(m, fl, "", c)
    f.arc(c, "a", "a", c)
    f.arc(c, "", "[Sg]", e1)
    return f, ["a", "aa"], ["k", "ka", "s", "saa", "t", "ta", "u", "ua", "y", "ya", "e", "ea"]


def autocorr(r):
    """Phrases whose paths carry flags of their own: (transducer, phrases)"""
    phrases = {"kaa saa": "kaasaa", "taas ta": "taasta", "eli ei": "eliei", "uusi uni": "uusiuni", "yli yö": "yliyö"}
    flags = [["@P.A.x@", "@R.A.x@"], ["@D.A@"], ["@U.A.y@", "@R.A.y@"], ["@U.B.z@", "@D.A.x@"], ["@D.B.z@", "@D.A.y@"]]
    r.shuffle(flags)
    f = vfst.Fst(False)
    for (p, o), fl in zip(phrases.items(), flags):
        s = 0
        for k, c in enumerate(p):
            for x in ([fl[0]] if k == 1 else fl[1:] if k == 4 else []) + [c]:
                t = f.state()
                f.arc(s, x, "", t)
                s = t
        for c in o:
            t = f.state()
            f.arc(s, "", c, t)
            s = t
        f.accept(s)
    return f, phrases


def check(ctx):
    r = ctx.rng
    sessions, ds = [], []

    def session(d, ops):
        s = Session(d.name)
        s.open(d.name, d.lang, "@ROOT@")
        for f in ops:
            f(s)
        s.term()
        sessions.append((s, d))

    # generic analysers
    for i in range(ctx.n(60, 900)):
        q = random.Random(r.random())
        f = random_fst(q) if i % 3 else random_fst(q, flags=0.9, n=q.randint(3, 9))
        d = dicts.VfstDict("w%d" % i, f, big_endian=q.random() < 0.4)
        ds.append(d)
        ws = words_for(q, f, "abcä", 25)
        ws = [w for w in ws if w] + [w.upper() for w in q.sample(ws, min(2, len(ws))) if w]
        session(d, [lambda s, w=w: s.word("ana", w, as_="anaw") for w in ws])
    for i in range(ctx.n(20, 200)):
        q = random.Random(r.random())
        f, alpha = wide_fst(q)
        d = dicts.VfstDict("v%d" % i, f, big_endian=q.random() < 0.4)
        ds.append(d)
        ws = [w for w in words_for(q, f, alpha, 40) if w]
        ws += [alpha[0], alpha[399], alpha[-1], "z"]
        session(d, [lambda s, w=w: s.word("ana", w, as_="anaw") for w in ws])
    # spellers and error models
    for i in range(ctx.n(36, 500)):
        q = random.Random(r.random())
        letters = "abcA"
        for _ in range(100):
            f = random_fst(q, letters=letters, outs=q.random() < 0.3)
            if (f.size("") or (1,))[0] == 0:      # the empty word is not a word
                break
        e = error_model(q, letters)
        ws = [w for w in words_for(q, f, letters, 25) if w]
        big = [w for w in ws if (e.size(w, 6000, 1500) or (9999,))[0] < 1500]
        d = dicts.VfstDict("s%d" % i, f, f, e, big_endian=q.random() < 0.4)
        ds.append(d)
        ops = []
        for w in ws:
            ops.append(lambda s, w=w: s.word("spell", w))
            if q.random() < 0.3:
                ops.append(lambda s, w=w: s.word("spell", w[:1].swapcase() + w[1:]))
        small_ones = [w for w in big if (e.size(w, 3000, 400) or (9999,))[0] < 400 and all(x in letters for x in w)]
        small_ones = [w for w in small_ones if cost(e, f, w) < 6000][:12]
        for w in small_ones:
            ops.append(lambda s, w=w: s.word("sugg", w, as_="suggw"))
        q.shuffle(ops)
        o = lambda s: (s.setb(0, 1), s.word("spell", "ab."), s.word("sugg", "ab.", as_="suggw") if "ab" in small_ones else None, s.setb(0, 0))
        session(d, ops + [o])
    # Finnish dictionaries: transducers without weights
    for i in range(ctx.n(36, 500)):
        q = random.Random(r.random())
        f = finnish_fst(q)
        ws = [w for w in words_for(q, f, "aksä", 25) if w]
        d = dicts.FinnishFstDict("f%d" % i, f, [w.lower() for w in ws] + [""], big_endian=q.random() < 0.4)
        ds.append(d)
        session(d, [lambda s, w=w: s.word("ana", w) for w in ws])
    for i in range(ctx.n(12, 150)):
        q = random.Random(r.random())
        f, alpha = wide_fst(q, False, True)
        ws = [w for w in words_for(q, f, alpha, 30) if w] + [alpha[0], alpha[399], alpha[-1], "z"]
        d = dicts.FinnishFstDict("g%d" % i, f, [w.lower() for w in ws], big_endian=q.random() < 0.4)
        ds.append(d)
        session(d, [lambda s, w=w: s.word("ana", w) for w in ws])
    # enumerations that are cut short, and lookups after them
    for i, (f, ws) in enumerate(cut_fsts(r)):
        for be in (False, True):
            d = dicts.VfstDict("c%d%d" % (i, be), f, big_endian=be)
            ds.append(d)
            ok = lambda w: small(f, w) and len(w) < 6
            ops = [lambda s, w=w: s.word("ana", w, as_="anaw" if ok(w) else "anacut") for _ in range(3) for w in r.sample(ws, len(ws)) if w]
            session(d, ops)
    for i in range(ctx.n(6, 40)):
        f, cut, ws = finnish_cut(r)
        d = dicts.FinnishFstDict("h%d" % i, f, ws, big_endian=i % 2 == 1)
        ds.append(d)
        ops = []
        for _ in range(20):
            ops.append(lambda s, w=r.choice(cut): s.word("ana", w, as_="anacut"))
            for w in r.sample(ws, 3):
                ops.append(lambda s, w=w: s.word("ana", w))
        session(d, ops)
        f, phrases = autocorr(r)
        known = sorted({w for p in phrases for w in p.split()})
        d = dicts.FinnishFstDict("k%d" % i, vfst.lexicon([(w, "[Ln][Xp]%s[X]%s[Sn][Ny]" % (w, w)) for w in known]), known, f, big_endian=i % 2 == 1)
        d.auto = phrases
        ds.append(d)
        ops = []
        for _ in range(15):
            t = " ".join(r.choice(list(phrases) + known) for _ in range(r.randint(1, 4)))
            ops.append(lambda s, t=t: s.gramall(t[:1].upper() + t[1:] if r.random() < 0.2 else t))
        session(d, ops)
    root = ctx.write_dicts(ds)
    for s, d in sessions:
        s.calls = [(c.replace("@ROOT@", str(root)), e) for c, e in s.calls]
    ctx.validate([s for s, _ in sessions], root, chunk=24)
