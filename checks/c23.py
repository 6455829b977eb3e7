"""C23: inflection tables (tools/pylib).  Tables are read and words inflected by the module of the working tree, in one process
per history; the classes of the tables (those of data/ and random ones, read by a parser of our own) and the forms of the
words are decided by Infl.tla."""
import json
import afftab, conform, vbuild
from conform import Session, cps, txt

VOWELS = ["", "", "", "front", "back", "both"]
GRADES = ["-", "av1", "av2", "av3", "av4", "av5", "av6"]


class Table(Session):
    """A history of calls of the inflection module"""
    lib = "tools/pylib"

    def __init__(self, name):
        super().__init__(name)
        self.uses = []

    def types(self, name, path):
        self.uses.append(name)
        self.call("types\t%s\t%s" % (name, path), op="itypes", d=name, h=0)

    def infl(self, name, word, cls, grade, vowels=""):
        c = cls if grade == "" else cls + "-" + grade
        self.call("infl\t%s\t%s\t%s\t%s" % (name, txt(cps(word)), c, vowels), op="infl", h=0, d=name, t=cps(word), c=cls, g=grade or "-", v=vowels)

    def kotus(self, name, i, word, grade):
        """What Kotus calls the alternation, by the i'th class (from 1)"""
        self.call("kotus\t%s\t%d\t%s\t%s" % (name, i, txt(cps(word)), grade), op="kotus", h=0, d=name, i=i, t=cps(word), g=grade)

    def harm(self, word, op="harm"):
        self.call("%s\t%s" % (op, txt(cps(word))), op=op, h=0, t=cps(word))


def ending(rng, t):
    """Text that matches the pattern of the class"""
    a = rng.choice(t["match"])
    return "".join(chr(rng.choice(s)) for s in a)


def stem(rng, n=None):
    n = rng.choice([0, 1, 2, 2, 3, 4, 6]) if n is None else n
    w = "".join(rng.choice(["k", "p", "t", "tt", "kk", "pp", "nk", "mp", "nt", "lt", "rt", "ng", "mm", "nn", "ll", "rr", "d", "v", "j", "s", "h", "r", "l", "b", "g", "\u0161", "c"])
                + rng.choice("aeiouyäöaäaouiéå") * rng.choice([1, 1, 1, 2]) for _ in range((n + 1) // 2))
    if n % 2 and w:
        w = rng.choice("aeiouyäöå") + w
    return w


GRAD = ["tt%s", "kk%s", "pp%s", "mp%s", "p%s", "nt%s", "lt%s", "rt%s", "t%s", "nk%s", "uku", "yky", "ng%s", "mm%s", "nn%s", "ll%s", "rr%s", "d%s", "k%s", "v%s", "j%s",
        "b%s", "g%s", "s%s", "uk%s", "ik%s", "h%s", "lk%s", "rj%s"]
CLOSED = ["s", "n", "r", "l", "t", "", "", "", "", "in", "as"]


def word(rng, t, far=False):
    """A word for the class: often one that the class inflects.  far: marks of structure are far from the end (in [Vn] of
    the tables, the code takes a mark for a vowel)"""
    w = stem(rng)
    k = rng.random()
    if k < .45:
        g = rng.choice(GRAD)
        w += g % rng.choice("aeiouyäöii") if "%" in g else g
        w += rng.choice(CLOSED)
    e = ending(rng, t)
    if e and rng.random() < .8:
        w = w[:len(w) - len(e)] + e if rng.random() < .5 and len(w) > len(e) else w + e
    if rng.random() < .12:
        i = rng.randrange(max(0, len(w) - 5) + 1 if far else len(w) + 1)
        w = w[:i] + rng.choice(["=", "|", "-", "=", "|", "'"]) + w[i:]
    if rng.random() < .15:
        # a part without vowels of harmony, after other parts
        if rng.random() < .6:
            w = "".join("i" if c in "aouyäöå" else c for c in w[:-len(e) or None]) + (w[len(w) - len(e):] if e else "")
        w = "".join(stem(rng, rng.choice([2, 3])) + rng.choice("==|") for _ in range(rng.choice([1, 2, 2, 3]))) + w
    if rng.random() < .1:
        i = rng.randrange(len(w) + 1)
        w = w[:i].upper() + w[i:]
    if rng.random() < .06:
        w = w[rng.randrange(len(w) + 1):] if w else w
    return w


def inflections(rng, s, name, types, n):
    for _ in range(n):
        t = rng.choice(types)
        g = rng.choice(GRADES)
        if rng.random() < .75:
            g = rng.choice({"none": ["-"], "sw": ["av1", "av1", "av3", "av5", "-"], "ws": ["av2", "av2", "av4", "av6", "-"]}[t["grad"]])
        elif rng.random() < .1:
            g = rng.choice(["av7", "av", "x", "av1-av1", "AV1", " av1"])
        c = rng.choice(t["sm"] or ["x"]) if rng.random() < .96 else rng.choice(["tuntematon", "", "valo ", "Valo"])
        w = word(rng, t, name[0] != "t")
        if rng.random() < .25:
            s.kotus(name, types.index(t) + 1, w, g)
        s.infl(name, w, c, "" if g == "-" and rng.random() < .8 else g, rng.choice(VOWELS))


EVERY = """class: 1
sm-class: sw
consonant-gradation: sw
rules:
nominatiivi 0 0 s
genetiivi 0 n w
essiivi 0 na s
partitiivi [aeiou] 0 w
end: rules
end: class
class: 2
sm-class: ws
consonant-gradation: ws
rules:
nominatiivi 0 0 w
genetiivi 0 n s
end: rules
end: class
class: 3
sm-class: ta
consonant-gradation: ws
rmsfx: ta
rules:
nominatiivi 0 0 w
genetiivi 0 n s
end: rules
end: class
"""


def alternations(rng, s, name):
    """Every consonant or pair before every kind of ending, in every grade"""
    groups = [g[:-2] for g in GRAD if g.endswith("%s")] + ["", "st", "tk", "lv", "bb", "gg", "f"]
    for i, g in enumerate(groups):
        for start in ("ka", "ää", "aa"):
            for v in "auyi":
                for end in ("", "s", "n"):
                    w = start + g + v + end
                    for a in GRADES[1:]:
                        if rng.random() < .6:
                            continue
                        k = rng.choice([1, 1, 2, 2, 3])
                        if k == 3:
                            w = start + g + v + end + "ta"
                        s.infl(name, w, ("sw", "ws", "ta")[k - 1], a)
                        s.kotus(name, k, w, a)
    # the k that disappears: after and before every vowel, short and long
    for v in "aeiouyäö":
        for u in "aeiouyäö" if v in "aä" else v + "a":
            for w in (u + "k" + v, v + u + "k" + v, "r" + u + u + "k" + v, v + v + "k" + v, "l" + v + "k" + u, "l" + v + "k" + v + "s"):
                for a in ("av5", "av6"):
                    s.infl(name, w, "sw" if a == "av5" else "ws", a)
    for w in ("a", "k", "ka", "as", "ta", "ata", "sata", "d", "da", ""):
        for a in GRADES + ["av7", ""]:
            for k in (1, 2, 3):
                s.kotus(name, k, w, a)


def harmonies(rng, s, n):
    for _ in range(n):
        w = "".join(rng.choice("aouåäöyeikstl=|-AÄÖYOUÅ") if rng.random() < .6 else rng.choice("iestk") for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 7, 9])))
        s.harm(w, rng.choice(["harm", "harm", "harm1"]))


def check(ctx):
    rng = ctx.rng
    root = ctx.scratch / "tables"
    root.mkdir()
    data = vbuild.REPO / "data"
    ss = []
    real = {}
    for f in ("subst", "verb"):
        real[f] = afftab.read(data / (f + ".aff"))
        (root / (f + ".json")).write_text(json.dumps({"types": real[f]}))
    for i in range(ctx.n(12, 80)):
        s = Table("data%d" % i)
        f = ("subst", "verb")[i % 2]
        s.types(f, data / (f + ".aff"))
        inflections(rng, s, f, real[f], ctx.n(60, 120))
        harmonies(rng, s, 20)
        ss.append(s)
    # every class of the tables with some words
    for f in ("subst", "verb"):
        s = Table("all-" + f)
        s.types(f, data / (f + ".aff"))
        for t in real[f]:
            for c in t["sm"]:
                for g in {"none": ["-"], "sw": ["av1", "av3", "av5", "-"], "ws": ["av2", "av4", "av6", "-"]}[t["grad"]]:
                    for _ in range(ctx.n(1, 6)):
                        s.infl(f, word(rng, t, True), c, "" if g == "-" else g, "")
        ss.append(s)
    (root / "every.aff").write_text(EVERY)
    (root / "every.json").write_text(json.dumps({"types": afftab.read(root / "every.aff")}))
    s = Table("alternations")
    s.types("every", root / "every.aff")
    alternations(rng, s, "every")
    ss.append(s)
    classes = ["valo", "meri", "risti", "kala", "x", "a_b", "meri"]
    for i in range(ctx.n(60, 500)):
        n = "t%d" % i
        text, types = afftab.make(rng, classes)
        (root / (n + ".aff")).write_text(text)
        (root / (n + ".json")).write_text(json.dumps({"types": types}))
        s = Table("random%d" % i)
        s.types(n, root / (n + ".aff"))
        inflections(rng, s, n, types, ctx.n(50, 80))
        ss.append(s)
    for i in range(2):
        s = Table("harmony%d" % i)
        s.lib = ("tools/pylib", "voikko-fi/common")[i]
        harmonies(rng, s, ctx.n(500, 4000))
        ss.append(s)

    def rec(s):
        return conform.record(["python3", conform.VERIF / "driver" / "infldriver.py", vbuild.REPO / s.lib], s, 120)
    ctx.validate(ss, root, recorder=rec, module="InflTrace")
