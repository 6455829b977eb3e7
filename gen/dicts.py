"""Dictionaries for the checks: written to a scratch directory for the library, and as JSON for the specification."""
import json, random
from pathlib import Path
import hfst, vfst

HERE = Path(__file__).resolve().parent


def load_lexicon(name="lexicon.txt"):
    """word -> outputs, in order"""
    r = {}
    for line in open(HERE / name, encoding="utf-8"):
        line = line.rstrip("\n")
        if line and not line.startswith("#"):
            w, o = line.split("\t")
            r.setdefault(w, []).append(o)
    return r


def items(o):
    return [dict(t=x[1:-1], c=0) if len(x) > 1 else dict(t="", c=ord(x)) for x in vfst.split_output(o)]


def well_formed(w, o):
    """Entries for which the specification is meant: the characters outside of sections are those of the word."""
    letters, sec = [], False
    for x in vfst.split_output(o):
        if len(x) > 1:
            if x[1] == "X":
                sec = x != "[X]"
        elif not sec:
            letters.append(x)
    return "".join(letters) == w


class FinnishDict:
    kind = "fin"
    sp = "tweaks"

    def __init__(self, name, lex, lang=None, auto=None):
        self.name, self.lex = name, lex
        self.lang = lang or "fi-x-" + name
        self.auto = auto or {"joten kuten": "jotenkuten", "vetää ves": "vetäves"}

    def index(self):
        return ("Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: test %s\nMorphology-Backend: finnishVfst\n"
                % (self.lang, self.name))

    def write(self, root):
        d = Path(root) / "5" / ("mor-" + self.name)
        d.mkdir(parents=True)
        (d / "index.txt").write_text(self.index())
        vfst.lexicon([(w, o) for w, l in self.lex.items() for o in l]).write(d / "mor.vfst")
        vfst.lexicon(list(self.auto.items())).write(d / "autocorr.vfst")

    def json(self):
        return dict(kind=self.kind, sp=self.sp, auto=[dict(i=[ord(c) for c in a], o=[ord(c) for c in b]) for a, b in self.auto.items()], words=[dict(w=[ord(c) for c in w], o=[items(o) for o in l]) for w, l in self.lex.items()])


class VfstDict:
    """A dictionary of transducers of its own: morphology, and possibly a speller and an error model"""
    kind = "vfst"

    def __init__(self, name, mor, spl=None, err=None, big_endian=False):
        self.name, self.mor, self.spl, self.err, self.big = name, mor, spl, err, big_endian
        self.lang = "sv-x-" + name

    def write(self, root):
        d = Path(root) / "5" / ("mor-" + self.name)
        d.mkdir(parents=True)
        (d / "index.txt").write_text("Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: test %s\nMorphology-Backend: vfst\n"
                                     "Speller-Backend: %s\nSuggestion-Backend: %s\nGrammar-Backend: null\n"
                                     % (self.lang, self.name, "vfst" if self.spl else "AllError", "vfst" if self.err else "null"))
        self.mor.write(d / "mor.vfst", self.big)
        if self.spl:
            self.spl.write(d / "spl.vfst", self.big)
        if self.err:
            self.err.write(d / "err.vfst", self.big)

    def json(self):
        return dict(kind=self.kind, sp="vfst" if self.spl else "error", mor=self.mor.json(), spl=self.spl.json() if self.spl else 0,
                    err=self.err.json() if self.err else 0)


class FinnishFstDict(FinnishDict):
    """A Finnish dictionary with any transducer as its morphology; ask: the (lower case) words that can be looked up"""
    kind = "ffst"

    def __init__(self, name, mor, ask=(), autofst=None, big_endian=False):
        FinnishDict.__init__(self, name, {})
        self.mor, self.ask, self.big, self.autofst = mor, set(ask), big_endian, autofst

    def write(self, root):
        d = Path(root) / "5" / ("mor-" + self.name)
        d.mkdir(parents=True)
        (d / "index.txt").write_text(self.index())
        self.mor.write(d / "mor.vfst", self.big)
        (self.autofst or vfst.lexicon(list(self.auto.items()))).write(d / "autocorr.vfst", self.big)

    def json(self):
        j = FinnishDict.json(self)
        j.update(mor=self.mor.json(), ask=[[ord(c) for c in w] for w in sorted(self.ask)])
        return j


class HfstDict:
    """A speller in a ZHFST archive.  words: word -> weight; rules: (from, to, weight) for at most so many edits; weights
    are in eighths"""
    kind = sp = "hfst"

    def __init__(self, name, words, rules=(), edits=1, lang=None, title=None, model=True):
        self.name, self.words, self.rules, self.edits, self.model = name, words, list(rules), edits, model
        self.lang = lang or "se-x-" + name
        self.title = "test " + name if title is None else title

    def write(self, root):
        d = Path(root) / "3"
        d.mkdir(exist_ok=True)
        self.write_to(d / (self.name + ".zhfst"))

    def write_to(self, path):
        chars = sorted({c for w in self.words for c in w} | {c for r in self.rules for c in r[0] + r[1]})
        hfst.write(path, self.lang, self.title, hfst.ol(hfst.trie({w: x / 8 for w, x in self.words.items()}), chars),
                   hfst.ol(hfst.edits(chars, [(a, b, x / 8) for a, b, x in self.rules], self.edits), chars) if self.model else None)

    def json(self):
        return dict(kind=self.kind, sp=self.sp, edits=self.edits if self.model else 0, model=int(self.model), words=[dict(w=[ord(c) for c in w], wt=x) for w, x in self.words.items()],
                    rules=[dict(a=[ord(c) for c in a], b=[ord(c) for c in b], wt=x) for a, b, x in self.rules])


def write_all(dicts, root):
    for d in dicts:
        d.write(root)
    p = Path(root) / "dicts.json"
    p.write_text(json.dumps({d.name: d.json() for d in dicts}))
    return p


def sample(lex, words, extra=0, seed=0):
    r = random.Random(seed)
    ks = [w for w in words if w in lex]
    rest = [w for w in lex if w not in set(ks)]
    ks += r.sample(rest, min(extra, len(rest)))
    return {w: lex[w] for w in ks}


TINY = {"koira": ["[Ln][Xp]koira[X]koir[Sn][Ny]a"], "esim.": ["[La][Xp]esim.[X]esim."], "jne.": ["[La][Xp]jne.[X]jne."]}


def tiny():
    return FinnishDict("tiny", TINY)
