"""Vocabularies of voikko-fi: random entries in the form of the specification, written as joukahainen.xml, and the build of a
dictionary from them with the makefile of the working tree."""
import json, os, random, shutil, subprocess
from pathlib import Path

HERE = Path(__file__).resolve().parent
SHAPES = [l.split() for l in (HERE / "vocab_words.txt").read_text().splitlines() if l and l[0] != "#"]
CONS = "bdfghjlmnrsv"


def cps(s):
    return [ord(c) for c in s]


def stem(rng, back, two=False):
    v = "aou" if back else "äöy"
    s = rng.choice(CONS) + rng.choice(v)
    if two:
        return s
    s += rng.choice(["e", "i", "i", "l", "r"]) + rng.choice("fgb")
    if rng.random() < .3:
        s = rng.choice(CONS) + rng.choice(v + "ie") + s
    return s


class Vocabulary:
    def __init__(self, rng):
        self.rng, self.entries, self.words, self.ids = rng, [], set(), set()

    def word(self, shape, back):
        for _ in range(200):
            w = shape.replace("*", stem(self.rng, back)).replace("?", stem(self.rng, back, True))
            if w not in self.words or w == shape:
                break
        self.words.add(w)
        return w

    def id(self):
        while True:
            i = self.rng.randrange(500000, 600000)
            if i not in self.ids:
                self.ids.add(i)
                return i

    def add(self, forms, wc, cls="", **kw):
        c, _, g = cls.partition("-")
        e = dict(id="w%d" % self.id(), forms=[cps(f) for f in forms], wc=wc, c=c, g=g or "-", vow="", style=[], usage=[], freq=0, base=[], compounding=[], inflection=[],
                 derivation=[], application=[], frequency=[], grammar=[])
        e.update(kw)
        self.entries.append(e)
        return e

    def xml(self):
        out = ['<?xml version="1.0" encoding="UTF-8"?>', '<wordlist xml:lang="fi">']
        show = lambda l: "".join(map(chr, l)).replace("&", "&amp;").replace("<", "&lt;")
        for e in self.entries:
            out.append('<word id="%s">' % e["id"])
            out.append("\t<forms>" + "".join("<form>%s</form>" % show(f) for f in e["forms"]) + "</forms>")
            if e["base"]:
                out.append("\t<baseform>%s</baseform>" % show(e["base"]))
            out.append("\t<classes>" + "".join("<wclass>%s</wclass>" % w for w in e["wc"]) + "</classes>")
            inf = ""
            if e["c"]:
                if self.rng.random() < .1:
                    inf += '<infclass type="historical">pasuuna</infclass>'
                inf += "<infclass>%s</infclass>" % (e["c"] + ("-" + e["g"] if e["g"] != "-" else ""))
            if e["vow"]:
                inf += "<vtype>%s</vtype>" % {"back": "a", "front": "ä", "both": "aä"}[e["vow"]]
            inf += "".join("<flag>%s</flag>" % f for f in e["inflection"])
            if inf:
                out.append("\t<inflection>\n\t\t%s\n\t</inflection>" % inf)
            if e["freq"] or e["frequency"]:
                out.append("\t<frequency>%s%s</frequency>" % ("<fclass>%d</fclass>" % e["freq"] if e["freq"] else "", "".join("<flag>%s</flag>" % f for f in e["frequency"])))
            for g in ("style", "usage", "compounding", "derivation", "application", "grammar"):
                if e[g]:
                    out.append("\t<%s>%s</%s>" % (g, "".join("<flag>%s</flag>" % f for f in e[g]), g))
            out.append("</word>")
        return "\n".join(out + ["</wordlist>"]) + "\n"


def build(src, voc, work, opts, tools, auto={}):
    """The dictionary made from the vocabulary by the makefile: (directory of dictionaries, log) or (None, log)"""
    shutil.copytree(src, work / "vf", ignore=shutil.ignore_patterns("*.pyc", "__pycache__", "config.mak"))
    (work / "vf" / "vocabulary" / "joukahainen.xml").write_text(voc.xml(), encoding="utf-8")
    f = work / "vf" / "vocabulary" / "autocorrect" / "fi.xml"
    more = "".join("<replacement%s>\n  <incorrect>%s</incorrect>\n  <correct>%s</correct>\n%s</replacement>\n" % (' type="optional"' if i % 3 == 0 else "", x, y, "  <reason>Syy</reason>\n" if i % 4 == 0 else "") for i, (x, y) in enumerate(auto.items()))
    f.write_text(f.read_text(encoding="utf-8").replace("</autocorrect>", more + "</autocorrect>"), encoding="utf-8")
    (work / "b").mkdir()
    env = dict(os.environ, PATH="%s:%s" % (tools, os.environ["PATH"]), LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(["make", "-s", "vvfst-install", "VVFST_BUILDDIR=%s" % (work / "b"), "GENLEX_OPTS=" + opts, "VOIKKO_VARIANT=voc", "DESTDIR=%s" % (work / "inst")],
                       cwd=work / "vf", env=env, capture_output=True, text=True, errors="replace", timeout=600)
    log = p.stdout + p.stderr
    return (work / "inst" if p.returncode == 0 and (work / "inst" / "5" / "mor-voc" / "mor.vfst").exists() else None), log
