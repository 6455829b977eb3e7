"""C18: the deprecated interface with numbered handles."""
import json, re
from conform import Session, cps, txt
import words, worlds, work, c05, c11, c12, c14

HEAD = c12.HEAD
VARIANTS = ["a", "b", "abcdefgh", "abcdefghi", "abcdefghabcdefghq", "murre"]
# 5 is the former VOIKKO_INTERSECT_COMPOUND_LEVEL
INTS = [5, 9, 17, 0, 2, 3, 18, -1, 100]


class Old:
    """A history of the deprecated interface; knows which numbers are open, so as not to use others"""
    def __init__(self, s, env):
        self.s, self.e, self.open = s, env, {}

    def init(self, lang, path, d, cache=0):
        """d: whether such a dictionary exists"""
        self.e.dinit(lang, path, cache)
        free = [n for n in (1, 2, 3, 4) if n not in self.open]
        if free and lang is not None and d:
            self.open[free[0]] = lang

    def term(self, n):
        self.s.call("dterm\t%d" % n, op="dterm", h=0, k=n)
        self.open.pop(n, None)

    def word(self, op, w, n, bytes_=False):
        w = list(w.encode()) if bytes_ and isinstance(w, str) else cps(w)
        self.s.call("d%s%s\t%d\t%s" % (op, "C" if bytes_ else "U", n, txt(w)), op=op + ("C" if bytes_ else ""), h=10 + n, t=w)

    def text(self, op, t, n, bytes_=False):
        """op: tok, sent"""
        t = list(t.encode()) if bytes_ and isinstance(t, str) else cps(t)
        self.s.call("d%s%s\t%d\t%s" % (op, "C" if bytes_ else "U", n, txt(t)), op=op + "1" + ("C" if bytes_ else ""), h=10 + n, t=t)

    def gram(self, t, start, skip, n, bytes_=False):
        t = list(t.encode()) if bytes_ and isinstance(t, str) else cps(t)
        self.s.call("dgram%s\t%d\t%s\t%d\t%d" % ("C" if bytes_ else "U", n, txt(t), start, skip), op="gram" + ("C" if bytes_ else ""), h=10 + n, t=t, s=start, k=skip)

    def setb(self, k, v, n):
        self.s.call("dsetb\t%d\t%d\t%d" % (n, k, v), op="setb", h=10 + n, k=k, v=v)

    def seti(self, k, v, n):
        self.s.call("dseti\t%d\t%d\t%d" % (n, k, v), op="dseti", h=10 + n, k=k, v=v)

    def sets(self, k, v, n):
        self.s.call("dsets\t%d\t%d\t%s" % (n, k, "-" if v is None else v), op="dsets", h=10 + n, k=k, v="" if v is None else v)

    def who(self, ids):
        for n in sorted(self.open):
            for w in ids:
                self.word("spell", w, n)


def check(ctx):
    rng = ctx.rng
    out = ctx.model("Slots", "INIT Init\nNEXT Next\nVIEW View\nINVARIANT Bounded\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", workers=1, what="numbered handles: all histories of four slots with two dictionaries")
    ctx.model("Slots", "SPECIFICATION Spec\n".replace("SPECIFICATION Spec", "INIT Init\nNEXT Next") + "VIEW View\nPROPERTIES Stable OneAtATime\nCHECK_DEADLOCK FALSE\n", workers=1, what="open handles are not disturbed by others")
    hist = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"HISTORY", "(.*)">>', out)]
    if len(hist) < 500:
        raise RuntimeError("no histories")
    root = ctx.scratch / "dicts"
    root.mkdir()
    top = ctx.scratch / "fs"
    lex = words.core_lexicon(rng, 40)
    for w, o in c11.base_lexicon(rng).items():
        lex.setdefault(w, o)
    small = words.core_lexicon(rng, 20)
    w = worlds.World("old", top)
    for v in VARIANTS:
        w.add(top / "p", "mor-" + v, HEAD + "\nLanguage: fi-x-%s\n" % v, lex if v == "a" else small if v == "b" else None)
    w.add(top / "p", "mor-std", HEAD + "\nLanguage: fi-x-standard\n")
    w.add(top / "q", "mor-d", HEAD + "\nLanguage: fi-x-default\n")
    w.add(top / "q", "mor-m", HEAD + "\nLanguage: fi-x-murre\n")
    w.write(root)
    P, Q = str(top / "p"), str(top / "q")
    ss = []
    # 1. the transitions of the design, replayed (in one process, so that they also follow each other)
    ctx.notes.append("%d histories, one per transition of the slot table" % len(hist))
    rng.shuffle(hist)
    for part in work.split(hist[:ctx.n(600, 5000)], 8):
        s = Session("slots")
        o = Old(s, worlds.Env(s, w))
        for calls in part:
            for f, x in calls:
                if f == "term":
                    o.term(x)
                else:
                    o.init(None if x == "null" else x, P, x in "ab")
            o.who([w.ids[0], w.ids[1]])
            for n in sorted(o.open):
                o.term(n)
        ss.append(s)
    s = Session("first")          # nothing was ever opened
    o = Old(s, worlds.Env(s, w))
    for n in (1, 0, 4, 5, -1, 77, 2147483647, -2147483648):
        o.term(n)
    o.init("nope", P, False)
    o.term(1)
    o.init(None, P, False)
    o.term(1)
    ss.append(s)
    # 2. languages and paths
    langs = VARIANTS + ["", "default", "fi_FI", "standard", "ABC", "Murre", "a-b", "abcdefg", "fi", "fi-x-a", "ab-cdefghi", "x", "mur-re", "\u00e4"]
    for part in range(4):
        s = Session("languages")
        e = worlds.Env(s, w)
        o = Old(s, e)
        for i in range(ctx.n(40, 300)):
            e.set(path=rng.choice([None, P, Q, P + ":" + Q, Q + ":" + P]), dic=rng.choice([None, None, "murre", "a"]))
            lang, path = rng.choice(langs), rng.choice([P, Q, "", "/nonexistent", None])
            e.dinit(lang, path, rng.choice([0, 1, -1]))
            for k, x in enumerate(w.ids):
                s.call("dwho\t1\t%s" % txt(cps(x)), op="dwho", h=11, t=cps(x))
            o.term(1)
        ss.append(s)
    # 3. long histories with every function, next to handles of the current interface
    pool = list(lex)
    for part in range(ctx.n(12, 40)):
        s = Session("old")
        e = worlds.Env(s, w)
        o = Old(s, e)
        new = set()
        paras = [c11.paragraph(rng, pool) for _ in range(5)]
        for i in range(ctx.n(250, 1500)):
            k = rng.random()
            if not o.open or k < .05:
                lang = rng.choice(["a", "a", "a", "b", "murre", "nope", None])
                o.init(lang, P, lang != "nope", rng.choice([0, 0, 1, 2, -1]))
                continue
            if k < .08:
                o.term(rng.choice([0, 1, 2, 3, 4, 4, 5, -1]))
                continue
            if k < .12:
                h = rng.randint(0, 3)
                if h in new:
                    s.term(h)
                    new.discard(h)
                else:
                    e.pick("fi-x-" + rng.choice("ab"), P, h)
                    new.add(h)
                continue
            n = rng.choice(sorted(o.open))
            c8 = rng.random() < .5
            if new and rng.random() < .15:
                c14.probe(s, rng.choice(c14.CHEAP), rng.choice(sorted(new)))
            elif k < .22:
                o.setb(rng.choice(words.BOOL + [2, 5, 9, 18]), rng.randint(0, 1), n)
            elif k < .26:
                o.seti(*rng.choice([(9, 2), (9, 3), (9, 4), (17, 0), (17, -1), (17, 1), (5, 1), (5, 0), (0, 1), (3, 1), (18, 1), (-1, 0)]), n)
            elif k < .28:
                o.sets(rng.choice([2, 2, 2, 0, 3]), rng.choice(["UTF-8", "UTF-8", "utf-8", "ISO-8859-1", "", None, "UTF-8 ", "UTF"]), n)
            elif k < .55:
                x = words.cases(rng, words.word(rng, pool) if rng.random() < .5 else rng.choice(pool + w.ids))
                if c8 and rng.random() < .1:
                    x = [rng.choice([0xC3, 0xA4, 0x61, 0xFF]) for _ in range(3)]
                o.word(rng.choice(["spell", "spell", "hyph", "ana"]), x, n, c8)
            elif k < .57:
                o.word("sugg", c05.misspelling(rng, pool), n, c8)
            elif k < .80:
                o.text(rng.choice(["tok", "sent"]), rng.choice(paras + ["", "koira", " a", "A. B. C"])[rng.choice([0, 0, 1, 3]):], n, c8)
            else:
                o.gram(rng.choice(paras + ["", "koira  on", "Koira on on ."]), rng.choice([0, 0, 0, 2, 5, 100]), rng.choice([0, 0, 1, 2]), n, c8)
        ss.append(s)
    ctx.validate(ss, root)
