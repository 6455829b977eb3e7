"""C19: the Python and the Java module.  Histories of method calls, recorded in a Python interpreter and in a Java virtual
machine that load the library built from the working tree; the answers of each method are decided by Bind.tla."""
import json, subprocess
import conform, vbuild, dicts, words, work, worlds, c05, c11
from conform import Session, cps, txt

JNA = "/usr/share/java/jna.jar"
SETB = ["setIgnoreDot", "setIgnoreNumbers", "setIgnoreUppercase", "setNoUglyHyphenation", "setAcceptFirstUppercase", "setAcceptAllUppercase",
        "setSuggestionStrategy", "setIgnoreNonwords", "setAcceptExtraHyphens", "setAcceptMissingHyphens", "setAcceptTitlesInGc",
        "setAcceptUnfinishedParagraphsInGc", "setHyphenateUnknownWords", "setAcceptBulletedListsInGc"]
ASTRAL = "\U0001f600\U00010000\U0010fffd\U00010400\U000e0041"
HEAD = "Voikko-Dictionary-Format: 5\n"
CODES = range(0, 20)


class Bound(Session):
    """A history of calls of one of the modules"""
    def __init__(self, b, name, env=None):
        super().__init__(name, env)
        self.b = b
        self.uses = ["messages"]

    def do(self, op, h, *args, **ev):
        self.call("\t".join([op, str(h)] + [str(a) for a in args]), op=op, h=h, b=self.b, **ev)

    def new(self, d, root, h=0, lang=None):
        self.do("binit", h, lang or d.lang, root, d=d.name if d else "")
        if d:
            self.uses.append(d.name)

    def word(self, op, w, h=0):
        self.do(op, h, txt(cps(w)), t=cps(w))

    def insh(self, w, y="", c="default", h=0):
        self.do("binsh", h, txt(cps(w)), txt(cps(y)), c, t=cps(w), y=[45] if c == "default" else cps(y), c=1 if c == "default" else int(c))

    def gram(self, t, lang, h=0):
        self.do("bgram", h, txt(cps(t)), lang, t=cps(t), lang="fi" if lang.startswith("fi") else "en")

    def attr(self, k, h=0):
        self.do("battr", h, txt(cps(k)), k=k)

    def set(self, name, v, h=0):
        self.do("bset", h, name, v, name=name, v=v, k=0, kind="")

    def setlow(self, kind, k, v, h=0):
        self.do("bset", h, ("setBoolean:%d" if kind == "b" else "setInteger:%d") % k, v, name="", kind=kind, k=k, v=v)


def astral(rng, t, p=.08):
    r = ""
    for c in t:
        r += c
        if rng.random() < p:
            r += rng.choice(ASTRAL)
    return r


def text(rng, ws, b, paras):
    """Texts of several paragraphs, with rare characters"""
    t = rng.choice(["\n", "\n", "\n\n", "\r\n", "\r", " \n"]).join(rng.choice(paras) for _ in range(rng.choice([1, 1, 2, 2, 3, 5])))
    k = rng.random()
    if k < .35:
        t = astral(rng, t, rng.choice([.02, .1]))
    elif k < .42:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.choice([0, len(t), rng.randrange(len(t) + 1), rng.randrange(len(t) + 1)])
            t = t[:i] + rng.choice(["\0", "\0", "\0\0"]) + t[i:]
    elif k < .5:
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice(["\n", "\r", "\t", "\u2028", "\u00ad", "\ufeff", "\v", "\f", "\x1c", "\x85", "\u2029"]) + t[i:]
    if rng.random() < .05:
        t = t[:rng.randrange(4)]
    if rng.random() < .15:
        t = rng.choice(["\n", "\n\n", "\r"]) + t
    if rng.random() < .15:
        t += rng.choice(["\n", "\n\n", " ", "\r\n"])
    return t


def history(rng, b, name, ds, root, world, place, n):
    s = Bound(b, name)
    s.uses += world.uses() + [d.name for d in ds]
    up, ever = {}, set()
    while len(s.calls) < n:
        h = rng.choice(range(4))
        k = rng.random()
        if h not in up:
            if h in ever and k < .15:
                # an instance that was terminated
                w = rng.choice(list(ds[0].lex))
                q = rng.random()
                if q < .3:
                    s.word(rng.choice(["bspell", "bsugg", "bhyph", "bana", "btok", "bsent"]), w, h)
                elif q < .45:
                    s.insh(w, h=h)
                elif q < .6:
                    s.gram(w + "  on.", "fi", h)
                elif q < .75:
                    s.attr("CLASS", h)
                elif q < .85:
                    s.set(rng.choice(SETB), 1, h)
                else:
                    s.do("bterm", h)
            elif k < .25:
                s.new(None, root, h, "xx")
            else:
                d = rng.choice(ds)
                s.new(d, root, h)
                up[h] = d
            continue
        d = up[h]
        ws = s.__dict__.setdefault("ws", {}).setdefault(d.name, rng.sample(list(d.lex), min(30, len(d.lex))))
        if k < .02:
            s.do("bterm", h)
            del up[h]
            ever.add(h)
        elif k < .03:
            s.call("bdel\t%d" % h, op="bterm", h=h, b=b)
            del up[h]
            ever.discard(h)
        elif k < .2:
            w = words.cases(rng, rng.choice(ws))
            if rng.random() < .2:
                w = astral(rng, w, .2)
            elif rng.random() < .1:
                w = words.strange(rng, w) if hasattr(words, "strange") else w + rng.choice(["\0", "\0a", ".", "-", "'"])
            s.word("bspell", w, h)
        elif k < .26:
            s.word("bsugg", c05.misspelling(rng, ws) if rng.random() < .9 else astral(rng, rng.choice(ws), .2), h)
        elif k < .4:
            w = words.word(rng, ws)
            if rng.random() < .15:
                w = astral(rng, w, .2)
            s.word("bhyph", w, h)
        elif k < .5:
            w = words.word(rng, ws)
            if rng.random() < .15:
                w = astral(rng, w, .2)
            if rng.random() < .3:
                s.insh(w, h=h)
            else:
                s.insh(w, rng.choice(["-", "", "&shy;", "\u00ad", "\U0001f600", "=\0", "::"]), rng.choice("01"), h)
        elif k < .6:
            s.word("bana", rng.choice(ws) if rng.random() < .8 else words.word(rng, ws), h)
        elif k < .7:
            s.word("btok", text(rng, ws, b, d.paras), h)
        elif k < .77:
            s.word("bsent", text(rng, ws, b, d.paras), h)
        elif k < .9:
            s.gram(text(rng, ws, b, d.paras), rng.choice(["fi", "fi", "en", "sv", "fi_FI", ""]), h)
        elif k < .92:
            s.attr(rng.choice(["CLASS", "NUMBER", "SIJAMUOTO", "MOOD", "NEGATIVE", "STRUCTURE", "X", "", "\0", "CLASS\0", "\u00e4"]), h)
        elif k < .93:
            fields = dict(w=world.name, path=worlds.b(str(place)), envp=[], envd=dict(set=0, v=[]))
            s.call("blistd\t%s" % place, op="listd", h=0, **fields)
            if b == "py":
                s.call("bcaps\t%s" % place, op="caps", h=0, **fields)
        elif k < .94:
            l = [[rng.choice(["fi", "en", "sv", "fi"]), rng.choice(["", "", "Latn"]), rng.choice(["standard", "a", "b", "medicine"]), rng.choice(["a", "b", "c", "x y"])]
                 for _ in range(rng.randint(1, 7))]
            s.call("bsort\t" + "\t".join(",".join(x) for x in l), op="bsort", h=0, b=b, l=[[cps(y) for y in x] for x in l])
        elif k < .985 or b == "java":
            if rng.random() < .15:
                s.set(*rng.choice([("setMinHyphenatedWordLength", rng.randint(0, 8)), ("setSpellerCacheSize", rng.choice([-1, 0, 1, 2]))]), h)
            else:
                s.set(rng.choice(SETB), rng.randint(0, 1), h)
        else:
            kind = rng.choice("bbi")
            s.setlow(kind, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 16, 17, 18, 99, -1]) if kind == "b" else rng.choice([9, 9, 17, 0, 8, 100]), rng.choice([0, 1, 3]), h)
    return s


def longs(rng, b, d, root):
    """Words and texts at the limits of length"""
    s = Bound(b, "long")
    s.new(d, root)
    s.uses.append(d.name)
    ws = list(d.lex)
    for n in (1, 63, 64, 127, 128, 255, 256, 300, 1000):
        for c in "a\u00e4\U0001f600":
            if n > 300 and c != "a":
                continue
            w = (rng.choice(ws)[:3] + c * n)[-n:]
            for op in ("bspell", "bhyph", "bana", "bsugg"):
                # (long words have very many candidates and rules to apply)
                if not (op == "bsugg" and 1 < n < 256) and not (op == "bhyph" and n > 256):
                    s.word(op, w)
            s.insh(w)
            s.insh(w, "+", "0")
    for op in ("bspell", "bsugg", "bhyph", "bana", "btok", "bsent"):
        s.word(op, "")
    s.insh("")
    s.gram("", "fi")
    s.gram("\n\n", "fi")
    return s


def messages(ctx, root):
    """The library's own descriptions of errors"""
    msgs = {}
    for l in ("fi", "en"):
        out, crash = conform.run_driver(ctx.driver("asan"), [("errmsg\t%d\t%s" % (c, l), {}) for c in CODES])
        if crash:
            raise conform.ModelError(crash)
        msgs[l] = {str(c): cps(json.loads(o)) for c, o in zip(CODES, out)}
    (root / "messages.json").write_text(json.dumps(dict(kind="world", **msgs)))


def check(ctx):
    rng = ctx.rng
    plain, asan, jdir = ctx.scratch / "plain", ctx.scratch / "asan", ctx.scratch / "classes"
    for p in (plain, asan, jdir):
        p.mkdir()
    vbuild.build_lib(asan, "asan")
    vbuild.build_lib(plain, "plain")
    repo = vbuild.REPO / "libvoikko"
    srcs = sorted((repo / "java" / "src" / "main" / "java").rglob("*.java"))
    vbuild._compile(["javac", "-encoding", "UTF-8", "-nowarn", "-cp", JNA, "-d", jdir, *srcs, conform.VERIF / "driver" / "java" / "BindDriver.java"])
    # (the sanitizer looks for the functions of the C++ library when it starts)
    preload = " ".join(subprocess.run(["g++", "-print-file-name=" + x], capture_output=True, text=True).stdout.strip() for x in ("libasan.so", "libstdc++.so.6"))
    drivers = {
        "py": (["python3", conform.VERIF / "driver" / "pydriver.py", repo / "python", asan], {"LD_PRELOAD": preload}),
        "java": (["java", "-Xmx1g", "-Xss16m", "-XX:TieredStopAtLevel=1", "-Djna.library.path=%s" % plain, "-Djna.nosys=false", "-Dfile.encoding=UTF-8", "-cp", "%s:%s" % (jdir, JNA), "BindDriver"], {}),
    }
    ds = [dicts.FinnishDict("core", words.core_lexicon(rng, 120), auto=dict(c11.AUTO))] + c11.make_dicts(rng, 1)
    for i, d in enumerate(ds):
        d.paras = [c11.paragraph(rng, list(d.lex))[:100] for _ in range(40)]
    root = ctx.write_dicts(ds)
    messages(ctx, root)
    top = ctx.scratch / "fs"
    top.mkdir()
    w = worlds.World("w", top)
    place = top / "p"
    w.add(place, "mor-a", HEAD + "Language: fi\nDescription: a\n")
    w.add(place, "mor-b", HEAD + "Language: fi-x-b\nDescription: \u00e4b\n")
    w.add(place, "mor-c", HEAD + "Language: sv-Latn-x-q\nDescription: c\n")
    w.write(root)
    ss = []
    for b in ("py", "java"):
        for i in range(ctx.n(12, 100)):
            ss.append(history(rng, b, "%s%d" % (b, i), ds, root, w, place, ctx.n(110, 250)))
        ss.append(longs(rng, b, ds[0], root))

    def rec(s):
        drv, env = drivers[s.b]
        s.env = env
        return conform.record(drv, s, 120)
    ctx.validate(ss, root, recorder=rec)
