"""Places with dictionaries in them: written to disk, and described for the specification."""
import json
from pathlib import Path
import dicts, vfst

LETTERS = "abcdefghijklmnopqrstuvwxyz"


def b(s):
    return list(s.encode("utf-8", "surrogateescape"))


class World:
    def __init__(self, name, top, sys=(), home=None):
        self.name, self.top = name, Path(top)
        self.places, self.lex, self.n = {}, {}, 0
        self.home = home or self.top / "home"
        self.sys = list(sys)
        self.ids = []

    def add(self, place, dirname, index, lex=None):
        """index: the text of the index file, or None for none.  Returns the word only this dictionary knows."""
        place = str(place)
        p = self.top / place / "5" / dirname          # (an absolute place stays itself)
        p.mkdir(parents=True)
        word = "tunnus" + LETTERS[self.n // 26] + LETTERS[self.n % 26]
        d = dicts.FinnishDict("%s-%d" % (self.name, self.n), dict(lex or {}))
        d.lex[word] = ["[Ln][Xp]%s[X]%s[Sn][Ny]" % (word, word)]
        self.n += 1
        if index is not None:
            (p / "index.txt").write_bytes(index.encode("utf-8", "surrogateescape"))
        vfst.lexicon([(w, o) for w, l in d.lex.items() for o in l]).write(p / "mor.vfst")
        vfst.lexicon(list(d.auto.items())).write(p / "autocorr.vfst")
        self.places.setdefault(place, []).append(dict(dir=b(dirname), lines=[b(x) for x in (index or "").split("\n")] if index is not None else [], d=d.name))
        self.lex[d.name] = d
        self.ids.append(word)
        return word

    def add_raw(self, place, dirname, index, files):
        """A dictionary of which anything may be wrong.  index: text or None; files: name (mor, spl, err, autocorr) ->
        bytes, or "dir" for a directory in its place, or nothing for none"""
        p = self.top / str(place) / "5" / dirname
        p.mkdir(parents=True)
        if index is not None:
            (p / "index.txt").write_bytes(index.encode("utf-8", "surrogateescape"))
        fs = {}
        for name in ("mor", "spl", "err", "autocorr"):
            x = files.get(name)
            if x is None or x == "dir":
                fs[name] = dict(s="none" if x is None else "dir", b=[])
                if x is not None:
                    (p / (name + ".vfst")).mkdir()
            else:
                fs[name] = dict(s="data", b=list(x))
                (p / (name + ".vfst")).write_bytes(bytes(x))
        self.places.setdefault(str(place), []).append(dict(dir=b(dirname), lines=[b(x) for x in (index or "").split("\n")] if index is not None else [], d="", files=fs))
        self.n += 1

    def add_zhfst(self, place, name, tag, title, good=True):
        """A speller in an archive (in the directory 3 of the place), or something that only looks like one"""
        p = self.top / str(place) / "3"
        p.mkdir(parents=True, exist_ok=True)
        word = "tunnus" + LETTERS[self.n // 26] + LETTERS[self.n % 26]
        d = dicts.HfstDict("%s-%d" % (self.name, self.n), {word: 0, "Iso" + word: 1}, [("x", "a", 1)], lang=tag, title=title)
        self.n += 1
        if good:
            d.write_to(p / name)
        else:
            (p / name).write_bytes(b"PK\003\004 nothing")
        self.places.setdefault(str(place), []).append(dict(dir=b(name), lines=[], zhfst=int(good), tag=b(tag), title=b(title), d=d.name))
        self.lex[d.name] = d
        self.ids.append(word)

    def write(self, root):
        j = dict(kind="world", home=b(str(self.home)), sys=b(":".join(map(str, self.sys))), locs=[dict(p=b(k), e=v) for k, v in self.places.items()])
        (root / (self.name + ".json")).write_text(json.dumps(j))
        for d in self.lex.values():
            (root / (d.name + ".json")).write_text(json.dumps(d.json()))

    def uses(self):
        return [self.name] + list(self.lex)


class Env:
    """The environment of a session and its changes"""
    def __init__(self, s, world):
        self.s, self.w, self.path, self.dict = s, world, None, None
        s.uses = getattr(s, "uses", []) + world.uses()
        s.call("setenv\tVERIF_HOME\t%s" % world.home, op="nop")

    def set(self, path="same", dic="same"):
        if path != "same":
            self.path = path
            self.s.call("setenv\tVOIKKO_DICTIONARY_PATH\t%s" % ("-" if path is None else path), op="nop")
        if dic != "same":
            self.dict = dic
            self.s.call("setenv\tVOIKKO_DICTIONARY\t%s" % ("-" if dic is None else dic), op="nop")

    def fields(self, path):
        return dict(w=self.w.name, path=b(path or ""), envp=b(self.path or ""), envd=dict(set=0 if self.dict is None else 1, v=b(self.dict or "")))

    def pick(self, lang, path, h=0):
        self.s.call("init\t%d\t%s\t%s" % (h, "-" if lang is None else lang, "-" if path is None else path),
                    op="pick", h=h, lang=b(lang or ""), nolang=1 if lang is None else 0, **self.fields(path))

    def listd(self, path):
        self.s.call("listd\t%s" % ("-" if path is None else path), op="listd", h=0, **self.fields(path))

    def caps(self, path):
        self.s.call("caps\t%s" % ("-" if path is None else path), op="caps", h=0, **self.fields(path))

    def dinit(self, lang, path, cache=0):
        self.s.call("dinit\t%s\t%d\t%s" % ("-" if lang is None else lang, cache, "-" if path is None else path),
                    op="dinit", h=0, lang=b(lang or ""), nolang=1 if lang is None else 0, **self.fields(path))

    def who(self, ws, h=0):
        """whether there is a handle, and the words it knows"""
        self.s.call("who\t%d\t%s" % (h, "\t".join(" ".join(str(ord(c)) for c in x) for x in ws)), op="who", h=h, t=[[ord(c) for c in x] for x in ws])

    def close(self, h=0):
        self.s.call("termq\t%d" % h, op="term", h=h)
