"""Inflection tables: reading (independently of the code under test), making at random, writing."""
import re

V = "aeiouyäöéèáóâ"
C = "bcdfghjklmnpqrstvwxzšž"
CAPS = {"V": V, "C": C, "A": "aä", "O": "oö", "U": "uy"}
CHAR = ["nominatiivi", "genetiivi", "partitiivi", "illatiivi", "nominatiivi_mon", "genetiivi_mon", "partitiivi_mon", "illatiivi_mon",
        "infinitiivi_1", "preesens_yks_1", "imperfekti_yks_3", "kondit_yks_3", "imperatiivi_yks_3", "partisiippi_2", "imperfekti_pass"]


def cps(s):
    return [ord(c) for c in s]


def pattern(p):
    """Alternatives, each a sequence of sets of characters"""
    def seq(p):
        r, i = [[]], 0
        while i < len(p):
            if p[i] == "[":
                j = p.index("]", i)
                s = "".join(CAPS.get(c, c) for c in p[i + 1:j])
                r = [x + [s] for x in r]
                i = j + 1
            elif p.startswith("(?:", i):
                j = p.index(")", i)
                alts = [a for x in p[i + 3:j].split("|") for a in seq(x)]
                r = [x + a for x in r for a in alts]
                i = j + 1
            else:
                s = CAPS.get(p[i], p[i])
                r = [x + [s] for x in r]
                i += 1
        return r
    return [[cps(s) for s in a] for a in seq(p)]


def rule(name, dele, add, strong, prio=1, mark=False):
    r = {"name": name, "ch": 1 if mark or name in CHAR else 0, "prio": prio, "strong": 1 if strong else 0, "pre": [], "alts": [], "post": [], "cap": 0}
    m = re.fullmatch(r"([a-zäöé]*)(\(?)\[([a-zäöé]*)\]\)?([a-zäöé]*)", dele)
    if dele == "0" or dele == "":
        pass
    elif m:
        r.update(pre=cps(m.group(1)), cap=1 if m.group(2) else 0, alts=cps(m.group(3)), post=cps(m.group(4)))
    else:
        r["pre"] = cps(dele)
    add = "" if add == "0" else add
    r["add"] = cps(add.replace("(1)", "\0")) if r["cap"] else cps(add)
    return r


def read(path):
    """The classes of a table as the specification sees them"""
    ts, t, inrules = [], None, False
    for line in open(path, encoding="utf-8"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if inrules:
            c = line.split()
            if c[0] == "end:":
                inrules = False
                continue
            opts = dict((x.split("=") + ["1"])[:2] for x in c[4].split(",")) if len(c) > 4 else {}
            if opts.get("ps") == "r":
                continue
            t["rules"].append(rule(c[0].lstrip("!"), c[1], c[2], c[3] == "s", int(opts.get("prio", "1")), c[0].startswith("!")))
            continue
        k, v = [x.strip() for x in line.split(":", 1)]
        if k == "class":
            t = {"sm": [], "kotus": v.split(","), "rm": 0, "match": [[]], "grad": "none", "note": [], "rules": [], "pattern": ""}
        elif k == "sm-class":
            t["sm"] = v.split(" ")
        elif k == "rmsfx":
            t["rm"] = len(v)
        elif k == "match-word":
            t["match"], t["pattern"] = pattern(v), v
        elif k == "consonant-gradation":
            t["grad"] = {"-": "none"}.get(v, v)
        elif k == "note":
            t["note"] = cps(v)
        elif k == "rules":
            inrules = True
        elif k == "end" and v == "class":
            ts.append(t)
    return ts


NAMES = CHAR + ["essiivi", "translatiivi", "inessiivi", "komitatiivi_mon", "subst_tO", "subst_Os", "verbi_AjAA", "verbi_AhtAA", "verbi_AUttAA",
                "verbi_AUtellA", "subst_Us", "verbi_ellA", "abessiivi_mon"]


def rand_word(rng, n, alphabet):
    return "".join(rng.choice(alphabet) for _ in range(n))


def rand_rule(rng):
    name = rng.choice(NAMES)
    k = rng.random()
    w = lambda n: rand_word(rng, n, "aaoueinstdäöyjk")
    if k < .4:
        dele, add = "0", w(rng.choice([0, 1, 2, 3, 4])) or "0"
    elif k < .7:
        dele, add = rng.choice(["a", "a", "i", "e", "o", "u", "s", "n", "t", "da", "ta", "ut", "nen", "aa", "uo", "ä", "é"]), w(rng.choice([0, 1, 2, 3])) or "0"
    elif k < .87:
        dele = w(rng.choice([0, 0, 1])) + "([%s])" % "".join(rng.sample("aeiouyst", rng.choice([1, 2, 4]))) + rng.choice(["", "", "s", "i"])
        add = rng.choice(["(1)(1)n", "(1)", "h(1)n", "is", "0", "(1)a(1)"])
    else:
        dele = w(rng.choice([0, 0, 1])) + "[%s]" % "".join(rng.sample("aeiouyst", rng.choice([1, 2, 4]))) + rng.choice(["", "", "s", "i"])
        add = w(rng.choice([0, 1, 2, 3])) or "0"
    return name, dele, add, rng.choice("sw")


def rand_pattern(rng):
    k = rng.random()
    if k < .25:
        return ""
    p = ""
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        p += rng.choice(["V", "C", "A", "O", "U", "i", "e", "s", "n", "t", "[ae]", "[hit]", "(?:O|U)", "(?:C|i)", "(?:kk|tt)", "(?:e|CO)"])
    return p


def make(rng, classes):
    """A random table: (text, classes as the specification sees them)"""
    ts, out = [], []

    def noise():
        if rng.random() < .2:
            out.append(rng.choice(["", "# class: 9", "  ", "\t# huomautus: x", "#"]))
    sep = lambda: rng.choice(["\t", " ", "\t\t", "  "])
    tail = lambda: rng.choice(["", "", "", " ", "\t# sw", " # ps=r", "#x"])
    for _ in range(rng.randrange(2, 7)):
        t = {"sm": rng.sample(classes, rng.choice([1, 1, 1, 2, 3])), "kotus": rng.choice([["1"], ["2", "4"], ["99"]]), "rm": 0, "grad": "none", "note": [], "rules": [], "pattern": rand_pattern(rng)}
        t["match"] = pattern(t["pattern"])
        noise()
        out.append("class:%s%s%s" % (rng.choice([" ", "", "\t"]), ",".join(t["kotus"]), tail()))
        heads = ["sm-class: " + " ".join(t["sm"])]
        if t["pattern"] or rng.random() < .3:
            heads.append("match-word: " + t["pattern"])
        k = rng.random()
        if k < .85:
            g = rng.choice(["-", "sw", "ws", "sw", "ws"])
            t["grad"] = "none" if g == "-" else g
            heads.append("consonant-gradation: " + g)
        if rng.random() < .35:
            s = rng.choice(["a", "ta", "A", "tA", "nen", "t"])
            t["rm"] = len(s)
            heads.append("rmsfx: " + s)
        if rng.random() < .3:
            t["note"] = cps("joku: sana")
            heads.append("note: joku: sana")
        if rng.random() < .5:
            heads.append("group: t")
        rng.shuffle(heads)
        for x in heads:
            noise()
            out.append(x + tail())
        noise()
        out.append("rules:" + tail())
        for _ in range(rng.randrange(1, 9)):
            noise()
            name, dele, add, g = rand_rule(rng)
            mark = rng.random() < .15
            opts, prio, skip = [], 1, False
            if rng.random() < .4:
                for _ in range(rng.choice([1, 1, 2])):
                    o = rng.choice(["ps=f", "ps=r", "prio=2", "prio=3", "x", "y=1"])
                    if o.split("=")[0] in [z.split("=")[0] for z in opts]:
                        continue
                    opts.append(o)
                    if o == "ps=r":
                        skip = True
                    if o.startswith("prio"):
                        prio = int(o[-1])
            out.append(("!" if mark else "") + sep().join([name, dele, add, g] + ([",".join(opts)] if opts else [])) + tail())
            if not skip:
                t["rules"].append(rule(name, dele, add, g == "s", prio, mark))
        out.append("end: rules" + tail())
        noise()
        out.append("end: class" + tail())
        ts.append(t)
    return "\n".join(out) + "\n", ts
