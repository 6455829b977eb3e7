"""C17: the dictionary compiler.  Random transducers are written as AT&T text (state numbers, order of the lines, names
of symbols, kinds of weights and byte orders vary), compiled with the real voikkovfstc, and every lookup in the
compiled file is compared with what the specification reads from the text.  Damaged texts must be refused."""
import json, math, os, random, subprocess
from pathlib import Path
import c08, conform, dicts, vbuild, vfst
from conform import Session


def field(s, wt):
    """A field as the specification sees it"""
    r = dict(n=int(s) if s.isdigit() and len(s) < 10 else -1, w=0, num=0, k="bad", c=0, op="", f="", v="", tag="")
    try:
        x = float(s)
        if wt == "prob":
            k = math.trunc(-math.log(x) * 100.0) if x > 0 else 10**6
        else:
            k = math.trunc(x * 1000.0)
        if -32768 <= k <= 32767:
            r.update(num=1, w=k)
    except (ValueError, OverflowError):
        pass
    if s == "@0@":
        r["k"] = "eps"
    elif s == "@_SPACE_@":
        r.update(k="chr", c=32)
    elif s.startswith("@") and len(s) > 1:
        p = s.strip("@").split(".")
        r.update(k="flag", op=p[0], f=p[1], v=p[2] if len(p) > 2 else "")
    elif s.startswith("[") and len(s) > 1:
        r.update(k="tag", tag=s[1:-1])
    elif len(s) == 1 and s != "[":
        r.update(k="chr", c=ord(s))
    return r


def weight_text(k, wt):
    k = k + 0.5 if k >= 0 else k - 0.5
    return repr(math.exp(-k / 100)) if wt == "prob" else repr(k / 1000)


def sym_text(s):
    return "@0@" if s == "" else "@_SPACE_@" if s == " " else s.replace(" ", "_")


def lines_of(r, f, wt):
    """AT&T lines of a transducer: the first line of each state comes in the order of the states, the others anywhere later"""
    per = []
    for s in range(len(f.tr)):
        l = [[str(s), str(t), sym_text(i), sym_text(o)] + ([weight_text(w, wt)] if wt else []) for i, o, t, w in f.tr[s]]
        if s in f.final:
            l.insert(r.randrange(len(l) + 1), [str(s)] + ([weight_text(f.final[s], wt)] if wt and not (f.final[s] == 0 and r.random() < 0.5) else []))
        if not l:
            l = [[str(s), str(s), "q", "q"] + ([weight_text(0, wt)] if wt else [])]
        per.append(l)
    res, later = [], []
    for l in per:
        res.append(l[0])
        for x in l[1:]:
            (later if r.random() < 0.15 else res).append(x)
    r.shuffle(later)
    return res + later


class Compiled:
    def setup(self, lines, wt, fmt, args=1, more=0, opts=None):
        self.lines, self.wt, self.fmt, self.args, self.more, self.opts = lines, wt, fmt, args, more, opts

    def fst_json(self):
        return dict(lines=[[field(x, self.wt) for x in l] for l in self.lines], weighted=1 if self.wt else 0)

    def event(self, tool, out, sep):
        text = "".join(sep.join(l) + "\n" for l in self.lines)
        text += "".join("0%s0%s%s%s%s\n" % (sep, sep, chr(0x10000 + i), sep, chr(0x10000 + i) + (sep + "0.5" if self.wt else "")) for i in range(self.more))
        cmd = [str(tool)] + (self.opts if self.opts is not None else ["-o", str(out), "-f", self.fmt] + (["-w", self.wt] if self.wt else []))
        e = {"PATH": os.environ["PATH"], "LC_ALL": "C.UTF-8", "ASAN_OPTIONS": conform.ASAN, "UBSAN_OPTIONS": conform.UBSAN}
        p = subprocess.run(cmd, input=text.encode(), capture_output=True, env=e, timeout=200, cwd=str(Path(out).parent))
        ev = dict(op="compile", h=0, n=0, args=self.args, weighted=1 if self.wt else 0, more=self.more,
                  lines=self.fst_json()["lines"], r=dict(exit=p.returncode, err=len(p.stderr)))
        if p.returncode not in (0, 1):
            ev = dict(op="crash", h=0, of="compile", n=0, r=[], cmd=" ".join(cmd), why="voikkovfstc ended with status %d\n%s\ninput:\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:], text[:800]))
        return ev


class CompiledVfst(dicts.VfstDict, Compiled):
    def json(self):
        return dict(kind="vfst", sp="error", mor=self.fst_json(), spl=0, err=0)


class CompiledFinnish(dicts.FinnishFstDict, Compiled):
    def json(self):
        j = dicts.FinnishDict.json(self)
        j.update(mor=self.fst_json(), ask=[[ord(c) for c in w] for w in sorted(self.ask)])
        return j


def damaged(r, lines, wt):
    """A text that need not be a transducer any more: what it is, the specification decides"""
    ls = [list(l) for l in lines]
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(ls))
        k = r.randrange(12)
        l = ls[i]
        if k == 0 and len(l) > 1:
            l.pop()
        elif k == 1:
            ls.insert(i, [])
        elif k == 2:
            l[0] = str(int(l[0]) + 1) if l and l[0].isdigit() else "0"
        elif k == 3 and len(l) > 3:
            l[1] = str(r.choice([99, 1000000, len(lines)]))
        elif k == 4 and len(l) > 3:
            l[r.choice([2, 3])] = "["
        elif k == 5 and l:
            l[0] = r.choice(["x", "."])
        elif k == 6 and len(l) > 3:
            l[1] = r.choice(["x", "."])
        elif k == 7 and wt and len(l) in (2, 5):
            l[-1] = r.choice(["w", "--", "."])
        elif k == 8 and wt and len(l) in (2, 5):
            l[-1] = r.choice(["1e-300", "0", "-1"]) if wt == "prob" else r.choice(["40", "-33.5", "1e9", "32.7", "-32.7"])
        elif k == 9:
            ls.pop(i)
            if not ls:
                ls = [["0"]]
        elif k == 10 and len(l) > 3:
            del l[2:]
        elif k == 11 and len(l) > 3:
            l.append("0.5")
    return ls


def check(ctx):
    r = ctx.rng
    b = ctx.scratch / "tool"
    b.mkdir()
    tool = vbuild.build_tool(b, "voikkovfstc")
    drv = ctx.driver()
    root = ctx.scratch / "dicts"
    root.mkdir()
    sessions = []

    def add(d, words, how):
        s = Session(d.name)
        s.dict, s.sep = d, r.choice(["\t", "\t", " ", "  "])
        if words is not None:
            s.open(d.name, d.lang, str(root))
            for w in words:
                s.word("ana", w, as_=how)
            s.term()
        sessions.append(s)

    def named(q, f):
        """other characters than those of the generators: a blank, characters of two to four bytes, #"""
        m = dict(zip("abcäksq", q.sample(["a", "b", " ", "#", "ä", "š", "😀", "一", "'", "0", "]", "z", "(", "\\"], 7))) if q.random() < 0.5 else {}
        for s in range(len(f.tr)):
            f.tr[s] = [(m.get(i, i), m.get(o, o), t, w) for i, o, t, w in f.tr[s]]
        return f, m

    for i in range(ctx.n(50, 700)):
        q = random.Random(r.random())
        f = c08.random_fst(q, flags=q.choice([0, 0.3, 0.9]))
        f.extra_symbols = []
        f, m = named(q, f)
        if q.random() < 0.3:
            # extreme and negative weights
            s = q.randrange(len(f.tr))
            f.tr[s] = [(a, o, t, q.choice([w, 5000, -3, -200, 127, 128, 255, 256])) for a, o, t, w in f.tr[s]]
        wt = q.choice(["prob", "log"])
        d = CompiledVfst("w%d" % i, None)
        d.setup(lines_of(q, f, wt), wt, q.choice(["le", "be", "native"]))
        add(d, [w for w in c08.words_for(q, f, [m.get(c, c) for c in "abcä"], 20) if w], "anabag")
    for i in range(ctx.n(12, 150)):
        q = random.Random(r.random())
        f, alpha = c08.wide_fst(q)
        f.extra_symbols = []
        wt = q.choice(["prob", "log"])
        d = CompiledVfst("v%d" % i, None)
        d.setup(lines_of(q, f, wt), wt, q.choice(["le", "be"]))
        add(d, [w for w in c08.words_for(q, f, alpha, 25) if w] + [alpha[0], "z"], "anabag")
    for i in range(ctx.n(40, 500)):
        q = random.Random(r.random())
        wide = i % 4 == 0
        if wide:
            f, letters = c08.wide_fst(q, False, True)
        else:
            f, letters = c08.finnish_fst(q), "aksä"
        f.extra_symbols = []
        ws = [w for w in c08.words_for(q, f, letters, 20) if w]
        d = CompiledFinnish("f%d" % i, None, [w.lower() for w in ws])
        d.setup(lines_of(q, f, None), None, q.choice(["le", "be", "native"]))
        add(d, ws, "anaset")
    # damaged texts and wrong arguments
    for i in range(ctx.n(400, 6000)):
        q = random.Random(r.random())
        wt = q.choice([None, "prob", "log"])
        f = c08.random_fst(q, bool(wt), n=q.randint(1, 4))
        f.extra_symbols = []
        d = CompiledVfst("x%d" % i, None)
        ls = lines_of(q, f, wt)
        d.setup(damaged(q, ls, wt), wt, "le")
        add(d, None, None)
    good = [["0", "1", "a", "b"], ["1"]]
    gw = [["0", "1", "a", "b", "0.5"], ["1", "0.5"]]
    for k, (ls, wt, args, opts) in enumerate([
            (good, None, 0, []), (good, None, 0, ["-o"]), (good, None, 0, ["-f", "le"]), (good, None, 0, ["-o", "o.vfst", "-f", "middle"]),
            (gw, "prob", 0, ["-o", "o.vfst", "-w", "tropical"]), (good, None, 0, ["-o", "/nonexistent/dir/o.vfst"]),
            (good, None, 1, ["-o", "o.vfst"]), (gw, "log", 1, ["-w", "log", "-f", "be", "-o", "o.vfst"]), (gw, None, 1, ["-o", "o.vfst"]),
            (good, "prob", 1, ["-o", "o.vfst", "-w", "prob"])]):
        d = CompiledVfst("y%d" % k, None)
        d.setup(ls, wt, "le", args, 0, opts)
        add(d, None, None)
    # at the limit of the number of symbols
    for k, more in enumerate([65531, 65532, 65533, 65534, 70000, 131072]):
        d = CompiledVfst("z%d" % k, None)
        d.setup(good if k % 2 else gw, None if k % 2 else "prob", "le", 1, more)
        add(d, None, None)

    def rec(s):
        d = s.dict
        p = root / "5" / ("mor-" + d.name)
        p.mkdir(parents=True)
        ev = [d.event(tool, p / "mor.vfst", s.sep)]
        if s.calls and ev[0]["op"] == "compile" and ev[0]["r"]["exit"] == 0:
            if isinstance(d, CompiledFinnish):
                (p / "index.txt").write_text(d.index())
                vfst.lexicon(list(d.auto.items())).write(p / "autocorr.vfst")
            else:
                (p / "index.txt").write_text("Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: x\nMorphology-Backend: vfst\nSpeller-Backend: AllError\nSuggestion-Backend: null\nGrammar-Backend: null\n" % d.lang)
            (root / (d.name + ".json")).write_text(json.dumps(d.json()))
            ev += conform.record(drv, s)
        return ev
    ctx.validate(sessions, root, recorder=rec, chunk=16)
