"""C15: broken dictionaries.  Each damaged file is judged byte by byte by the specification (VfstFile); the real library
must load what is sound, refuse what is not, and leave no trace of a refused dictionary."""
import json, zipfile
from conform import Session
import vfst, worlds, c08

HEAD = "Voikko-Dictionary-Format: 5"
ROLES = {
    # which file is damaged -> the other lines of the index, whether the file is weighted, the calls that use it
    "mor": ("", False, ""),
    "autocorr": ("", False, "r"),
    "morw": ("Morphology-Backend: vfst\nSpeller-Backend: AllOk\nSuggestion-Backend: null\nGrammar-Backend: null\n", True, "ah"),
    "spl": ("Morphology-Backend: null\nSpeller-Backend: vfst\nSuggestion-Backend: null\nGrammar-Backend: null\n", True, "s"),
    "err": ("Morphology-Backend: null\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: finnish\n", True, "sg"),
}
ZINDEX = """<?xml version="1.0" encoding="UTF-8"?><hfstspeller dtdversion="1.0" hfstversion="3"><info><locale>fi-x-rikki</locale><title>t</title><description>d</description>
<version vcsrev="1">1</version><date>1</date><producer>p</producer><contact email="a" website="b"/></info><acceptor type="general" id="acceptor.default.hfst"><title>t</title><description>d</description></acceptor></hfstspeller>"""
POKES = ["a", "ab", "abca", "aaaaaa", "cba", "äab", "bcäac", "q", "xyz", "Aab"]


def index(lines, tag="fi-x-rikki"):
    return HEAD + "\nLanguage: %s\n" % tag + lines


def small(r, weighted, n=None):
    return c08.random_fst(r, weighted=weighted, letters="abc" if r.random() < .5 else "abcä", n=n or r.randint(2, 4))


def reachable_only(f):
    """the same transducer without states that cannot be reached"""
    seen, todo = {0: 0}, [0]
    for s in todo:
        for _, _, t, _ in f.tr[s]:
            if t not in seen:
                seen[t] = len(todo)
                todo.append(t)
    g = vfst.Fst(f.weighted)
    g.extra_symbols = f.extra_symbols
    for s in todo[1:]:
        g.state()
    for s in todo:
        for i, o, t, w in f.tr[s]:
            g.arc(seen[s], i, o, seen[t], w)
        if s in f.final:
            g.accept(seen[s], f.final[s])
    return g


def wide(r, weighted, k):
    f = vfst.Fst(weighted)
    e = f.state()
    for i in range(k):
        f.arc(0, chr(0x4E00 + i), "", e)
    f.arc(0, "a", "b", 0)
    f.accept(e)
    return f


def long_file(weighted, size):
    """a chain of states; no shorter than size bytes"""
    f = vfst.Fst(weighted)
    s = 0
    for i in range(size // (16 if weighted else 8) + 2):
        t = f.state()
        f.arc(s, "abc"[i % 3], "abc"[i % 3], t)
        s = t
    f.accept(s)
    return f


def mutations(r, b, n):
    """changed copies of a file"""
    for _ in range(n):
        x = bytearray(b)
        k = r.randrange(8)
        at = r.randrange(len(x))
        if k < 3:
            x[at] = r.choice([0, 1, 255, 254, 128, 127, x[at] ^ 1, x[at] ^ 128, (x[at] + 1) % 256, r.randrange(256)])
        elif k == 3:
            for _ in range(r.randint(2, 5)):
                x[r.randrange(len(x))] = r.choice([0, 255, r.randrange(256)])
        elif k == 4:
            del x[at:at + r.choice([1, 2, 8, 16])]
        elif k == 5:
            x[at:at] = bytes(r.choice([0, 255, 65]) for _ in range(r.choice([1, 2, 8, 16])))
        elif k == 6:
            x += bytes(r.choice([0, 255]) for _ in range(r.choice([1, 3, 8, 16])))
        else:
            c = len(x) // 8 * 8 - 8 * r.randint(1, max(1, min(len(x) // 8 - 3, 12)))
            c = max(c, 16)
            x[c:c + 8] = bytes(r.choice([0, 1, 2, 3, 4, 255, x[min(len(x) - 1, c + j)]]) for j in range(8))[:max(0, len(x) - c)]
        yield bytes(x)


def crafted(r, weighted):
    """files with one thing wrong (or merely unusual), in both byte orders"""
    import struct
    cell = 16 if weighted else 8
    for be in (0, 1):
        e = "><"[1 - be]

        def mk(syms, cells, cookie=(0x00013A6E, 0x000351FA), flag=None, nsyms=None, pad=True):
            out = bytearray(struct.pack(e + "II", *cookie)) + bytes([int(weighted) if flag is None else flag]) + b"\0" * 7
            out += struct.pack(e + "H", len(syms) if nsyms is None else nsyms)
            for s in syms:
                out += (s if isinstance(s, bytes) else s.encode()) + b"\0"
            while len(out) % cell and pad:
                out += b"\0"
            for c in cells:
                if len(c) == 1:
                    out += struct.pack(e + "I", c[0]) + b"\0" * (cell - 4)
                    continue
                i, o, t, more = c
                if weighted:
                    out += struct.pack(e + "IIIhBB", 0xFFFFFFFF if i is None else i, o, t, 0, more, 0)
                else:
                    tb = struct.pack(e + "I", t)
                    out += struct.pack(e + "HH", 0xFFFF if i is None else i, o) + (tb[1:] if be else tb[:3]) + bytes([more])
            return bytes(out)
        S = ["", "@P.A.x@", "a", "b", "[x]"]
        good = [(2, 3, 2, 1), (3, 2, 0, 0), (None, 0, 0, 0)]
        yield mk(S, good)
        yield mk(S, good, cookie=(0x00013A6E, 0x000351FB))
        yield mk(S, good, cookie=(0x000351FA, 0x00013A6E))
        yield mk(S, good, flag=1 - int(weighted))
        yield mk(S, good, flag=2)
        yield mk(S, good, flag=255)
        yield mk([], good, nsyms=0)
        yield mk(S, good, nsyms=4)
        yield mk(S, good, nsyms=6)
        yield mk(S, good, nsyms=40)
        yield mk(S, good, nsyms=65535)
        yield mk(["a", "b", "c", "d"], good)
        yield mk(["", b"\xff", "a", "b", "[x]"], good)
        yield mk(["", "a", b"\xc3", "b", "[x]"], good)
        yield mk(["", "a", b"\xc0\xaf", "b", "[x]"], good)
        yield mk(["", "a", b"\xed\xa0\x80", "b", "[x]"], good)
        yield mk(["", "a", "b", "c", b"[\xe2\x82"], good)
        yield mk(["", "a", "b", "c", b"[x]\xf8"], good)
        for fl in ("@", "@@", "@P", "@P.", "@P.@", "@P.A@", "@P..x@", "@X.A.x@", "@P.A.x", "@.A.x@", "@P@x@A@", "@P.ä.ö@", "@R.A@", "@C.A@"):
            yield mk(["", fl, "a", "b", "[x]"], good)
        yield mk(["", "", "a", "b", "[x]"], good)
        yield mk(["", "a", "a", "b", "a"], good)
        yield mk(["", "@P.A.x@", "@U.A.x@"], [(1, 0, 1, 0), (None, 0, 0, 0)])
        yield mk([""], [(None, 0, 0, 0)])
        yield mk([""], [(0, 0, 0, 0)])
        yield mk(S, [])
        yield mk(S, [], pad=False)
        yield mk(S, good[:2])
        yield mk(S, good[:1])
        yield mk(S, good + [(None, 0, 0, 0)])
        yield mk(S, good + [(None, 0, 0, 1)])
        yield mk(S, [(2, 3, 3, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 3, 1, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 3, 0xFFFFFF, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 5, 2, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 0xFFFF, 2, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 4, 2, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 3, 2, 1), (3, 2, 0, 0), (None, 0xFFFF, 0xFFFFFF, 0)])
        yield mk(S, [(2, 3, 2, 1), (3, 2, 0, 0), (5, 0, 0, 0)])
        yield mk(S, [(2, 3, 2, 1), (3, 2, 0, 0), (9, 0, 0, 0)])
        yield mk(S, [(2, 3, 2, 2), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 3, 2, 3), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 3, 2, 254), (3, 2, 0, 0), (None, 0, 0, 0)])
        yield mk(S, [(2, 3, 0, 255)])
        yield mk(S, [(2, 3, 0, 255), (255,)])
        yield mk(S, [(2, 3, 0, 255), (0,)])
        yield mk(S, [(2, 3, 0, 255), (1,), (2, 2, 0, 0)])
        yield mk(S, [(2, 3, 0, 255), (0xFFFFFFFF,), (2, 2, 0, 0)])
        yield mk(S, [(2, 3, 0, 255), (0x7FFFFFFF,), (2, 2, 0, 0)])
        for k in (254, 255, 256):
            yield mk(S, [(2, 3, 0, 255), (255,)] + [(3, 2, 0, 0)] * k)
            yield mk(S, [(2, 3, 0, 254)] + [(3, 2, 0, 0)] * k)
        yield mk(S, [(2, 3, 0, 255), (300,)] + [(3, 2, 0, 0)] * 299)
        if weighted:
            yield mk(S, [(2, 3, 0xFFFFFFFF, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
            yield mk(S, [(2, 0x10003, 2, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
            yield mk(S, [(2, 3, 0x10000002, 1), (3, 2, 0, 0), (None, 0, 0, 0)])
    yield b""
    yield b"\0"
    yield b"\x6e\x3a\x01\x00\xfa\x51\x03\x00"
    yield b"\x6e\x3a\x01\x00\xfa\x51\x03\x00\x01"
    yield b"\x6e\x3a\x01\x00\xfa\x51\x03\x00" + bytes([int(weighted)]) + b"\0" * 7
    yield b"\x6e\x3a\x01\x00\xfa\x51\x03\x00" + bytes([int(weighted)]) + b"\0" * 8
    yield b"\x6e\x3a\x01\x00\xfa\x51\x03\x00" + bytes([int(weighted)]) + b"\0" * 9
    yield b"0\t1\ta\tb\n1\n"
    yield b"\x7fELF" + bytes(range(256))
    yield bytes(4096)
    yield b"\xff" * 64


BACKENDS = dict(
    Morphology=["finnishVfst", "vfst", "null", "hfst", "lttoolbox", "FinnishVfst", "finnishVfst ", "", "Null"],
    Speller=["AnalyzerToSpellerAdapter(currentAnalyzer)", "FinnishSpellerTweaksWrapper(AnalyzerToSpellerAdapter(currentAnalyzer),currentAnalyzer)", "AllOk", "AllError", "vfst", "hfst", "", "allok",
             "FinnishSpellerTweaksWrapper(AnalyzerToSpellerAdapter(currentAnalyzer), currentAnalyzer)"],
    Suggestion=["FinnishSuggestionStrategy(currentAnalyzer)", "null", "vfst", "hfst", "", "FinnishSuggestionStrategy"],
    Hyphenator=["AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)", "null", "hfst", "", "AnalyzerToFinnishHyphenatorAdapter"],
    Grammar=["null", "finnish", "finnishVfst", "vislcg3", "", "Finnish"])


class Broken:
    """Sessions made of attempts to load something"""
    def __init__(self, ctx, top, root, per=60):
        self.ctx, self.top, self.root, self.per = ctx, top, root, per
        self.sessions, self.k = [], 0
        self.n = per
        self.good_files = None

    def next(self):
        if self.n < self.per:
            return
        self.finish()
        self.k += 1
        t = self.top / ("b%d" % self.k)
        t.mkdir(parents=True)
        self.w = w = worlds.World("b%d" % self.k, t, sys=[])
        self.word = w.add(t / "good", "mor-hyva", HEAD + "\nLanguage: fi-x-hyva\n")
        self.word2 = w.add(t / "good2", "mor-hyva2", HEAD + "\nLanguage: fi-x-rikki\n")
        self.s = s = Session("broken%d" % self.k)
        s.cwd = t
        self.e = worlds.Env(s, w)
        self.e.pick("fi-x-hyva", str(t / "good"), h=5)
        self.n = 0
        self.hfst = self.k % 6 == 3       # that library leaves files open, so these are not counted here

    def res(self):
        if not self.hfst:
            self.s.call("res", op="res", h=0)

    def finish(self):
        if self.k == 0 or self.s is None:
            return
        self.e.close(0)
        self.e.close(5)
        self.res()
        self.e.pick("fi-x-hyva", str(self.w.top / "good"), h=0)
        self.e.who([self.word, self.word2], h=0)
        self.w.write(self.root)
        self.sessions.append(self.s)
        self.s = None

    def zhfst(self, place, kind):
        """a broken dictionary of the other format beside: to be ignored.  (Only faults that the HFST library reports.)"""
        d = place / "3"
        d.mkdir(parents=True)
        p = d / "x.zhfst"
        if kind == "dir":
            p.mkdir()
        elif kind in ("text", "empty"):
            p.write_text("hello" if kind == "text" else "")
        else:
            with zipfile.ZipFile(p, "w") as f:
                if kind == "acceptor":
                    f.writestr("index.xml", ZINDEX)
                    f.writestr("acceptor.default.hfst", b"")

    def attempt(self, files, lines="", idx=None, poke="", beside=False):
        """beside: a sound dictionary with the same tag lies further along the search path"""
        self.next()
        r = self.ctx.rng
        p = self.w.top / ("p%d" % self.n)
        self.w.add_raw(p, "mor-rikki", index(lines) if idx is None else (None if idx == "none" else idx), files)
        self.n += 1
        if self.hfst and r.random() < .5:
            self.zhfst(p, r.choice(["dir", "text", "empty", "zip", "acceptor"]))
        self.e.set(path=str(self.w.top / "good2") if beside else None)
        self.e.pick("fi-x-rikki", str(p), h=0)
        if poke:
            self.s.call("poke\t0\t%s\t%s" % (poke, "\t".join(" ".join(str(ord(c)) for c in x) for x in POKES)), op="nop")
        self.e.who([self.word], h=5)
        self.e.close(0)
        if r.random() < .1:
            self.e.close(5)
            self.res()
            self.e.pick("fi-x-hyva", str(self.w.top / "good"), h=5)


def check(ctx):
    r = ctx.rng
    # the laws of the verdict
    samples = []
    for i in range(ctx.n(5, 24)):
        wt = i % 2 == 1
        f = reachable_only(small(r, wt)) if i < ctx.n(5, 20) else reachable_only(wide(r, wt, r.choice([254, 255, 256])))
        samples.append(dict(b=list(f.write(None, big_endian=i % 4 >= 2)), weighted=int(wt)))
    (ctx.scratch / "samples.json").write_text(json.dumps(samples))
    ctx.model("MCVfst", "INIT Init\nNEXT Next\nINVARIANTS Complete OtherKind Noticed\nCHECK_DEADLOCK FALSE\n", env=dict(SAMPLES=str(ctx.scratch / "samples.json")), workers=8,
              what="no proper prefix of %d transducer files passes as a file; other kinds and changed identification are noticed" % len(samples))
    root = ctx.scratch / "dicts"
    root.mkdir()
    B = Broken(ctx, ctx.scratch / "fs", root)
    ok = {wt: vfst.lexicon([("ab", "ab"), ("abc", "ac"), ("a", "a")], weighted=wt).write(None) for wt in (False, True)}
    fin = vfst.lexicon([("aab", "[Ln][Xp]aab[X]aab[Sn][Ny]"), ("abca", "[Ls][Xp]abca[X]abca")]).write(None)

    def role(name, data, **kw):
        lines, wt, poke = ROLES[name]
        fs = {"mor": fin, "autocorr": ok[False], "spl": ok[True], "err": ok[True]}
        if name == "morw":
            fs["mor"] = data
        else:
            fs[name] = data
        B.attempt(fs, lines, poke=poke, **kw)

    for name, (lines, wt, poke) in ROLES.items():
        role(name, None)
        role(name, "dir")
        role(name, None, beside=True)
        role(name, b"", beside=True)
        for x in crafted(r, wt):
            role(name, x, beside=r.random() < .1)
        # every prefix of some files
        for j in range(ctx.n(1, 6)):
            f = reachable_only(small(r, wt, n=2 if ctx.n(1, 0) else None))
            b = f.write(None, big_endian=r.random() < .5)
            for n in range(len(b) + 1):
                role(name, b[:n])
        for size in (4096, 8192):
            for be in (0, 1):
                b = long_file(wt, size).write(None, big_endian=be)
                for n in (size, size - 8, len(b) - 16, len(b) - 8, len(b)):
                    if r.random() < ctx.n(.35, 1):
                        role(name, b[:n])
        for j in range(ctx.n(8, 60)):
            f = small(r, wt) if r.random() < .85 else wide(r, wt, r.choice([253, 254, 255, 256]))
            b = f.write(None, big_endian=r.random() < .4)
            role(name, b)
            for x in mutations(r, b, ctx.n(9, 25)):
                role(name, x)
    # combinations of parts
    allok = {"mor": fin, "autocorr": ok[False], "spl": ok[True], "err": ok[True]}
    for j in range(ctx.n(350, 2500)):
        fs = dict(allok)
        lines = []
        for part, vals in BACKENDS.items():
            k = r.random()
            if k < .45:
                lines.append("%s-Backend: %s" % (part, r.choice(vals[:5 if part == "Speller" else 3] if r.random() < .8 and part != "Hyphenator" else vals)))
                if k < .05:
                    lines.append("%s-Backend: %s" % (part, r.choice(vals)))
        if any(x == "Morphology-Backend: vfst" for x in lines) and r.random() < .8:
            fs["mor"] = ok[True]
        for n in fs:
            k = r.random()
            if k < .1:
                fs[n] = r.choice([None, "dir", b"", b"x", fs[n][:-8], fin, ok[True]])
        r.shuffle(lines)
        B.attempt(fs, "\n".join(lines) + r.choice(["\n", ""]), beside=r.random() < .1)
    # index files that make it no dictionary at all
    for idx in ["none", "", "\n", HEAD[:-1], HEAD + "5", HEAD.upper(), "\n" + HEAD, HEAD + "\r\n", "\x00" + HEAD, HEAD + "\nLanguage: \n", HEAD + "\nLanguage: -x-rikki\n", HEAD + "\nLanguage: sv\n", "x" * 100000,
                HEAD + "\n" + "x" * 100000 + "\nLanguage: fi-x-rikki", HEAD + "\nLanguage: fi-x-rikki", HEAD + "\n\nLanguage: fi-x-rikki\n\n", HEAD + "\nLanguage: fi-x-rikki\0\n", "\xff\xfe", HEAD + "\nlanguage: fi-x-rikki\n"]:
        for beside in (False, True):
            B.attempt(dict(allok), idx=idx, beside=beside)
    B.finish()
    ctx.validate(B.sessions, root=root, chunk=1)
