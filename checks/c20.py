"""C20: threads with handles of their own.  Real threads run histories of calls at the same time, under the thread
sanitizer and under the address sanitizer; the answers of each thread must be those of the specification, in which handles
share nothing."""
from conform import Session, cps
import c05, c08, c11, dicts, vfst, words, work, worlds

CFG = "SPECIFICATION Spec\nINVARIANT AsAlone\nCONSTANTS Threads = {1, 2%s} Words = {1, 2} Calls = %d Shared = %s\nCHECK_DEADLOCK FALSE\n"
HEAD = "Voikko-Dictionary-Format: 5\n"


class Caller:
    """One thread: a history of calls on handles that only it uses"""
    def __init__(self, rng, s, hs, env, root, ds, ws, paras, vd):
        self.rng, self.s, self.hs, self.env, self.root, self.ds, self.ws, self.paras, self.vd = rng, s, hs, env, root, ds, ws, paras, vd
        self.up = {}

    def step(self):
        rng, s = self.rng, self.s
        free = [h for h in self.hs if h not in self.up]
        if free and (not self.up or rng.random() < .06):
            h = rng.choice(free)
            k = rng.random()
            d = self.vd[0] if k < .15 else rng.choice(self.ds)
            self.up[h] = d
            s.open(d.name, d.lang, self.root, h=h)
            return
        h = rng.choice(sorted(self.up))
        d = self.up[h]
        k = rng.random()
        if k < .03:
            s.term(h)
            del self.up[h]
        elif k < .05:
            rng.choice([self.env.listd, self.env.caps])(str(self.env.place))
        elif k < .07 and free:
            f = rng.choice(free)
            self.env.pick(rng.choice(["fi", "fi-x-b", "sv", "xx", "fi-x-broken", "fi-x-nothing"]), str(self.env.place), f)
            self.env.who(self.env.w.ids, f)
            self.env.close(f)
        elif d is self.vd[0]:
            w = rng.choice(self.vd[1])
            if rng.random() < .25 and w in self.vd[2]:
                s.word("sugg", w, h=h, as_="suggw")
            elif rng.random() < .5:
                s.word("ana", w, h=h, as_="anaw")
            else:
                s.word("spell", w, h=h)
        elif k < .35:
            w = words.cases(rng, rng.choice(self.ws))
            s.word("spell", list(w.encode()) if k < .12 else w, h=h, bytes_=k < .12)
        elif k < .45:
            s.word("ana", rng.choice(self.ws), h=h)
        elif k < .55:
            s.word("hyph", words.word(rng, self.ws), h=h)
        elif k < .58:
            s.word("sugg", c05.misspelling(rng, self.ws), h=h)
        elif k < .62:
            s.insh(rng.choice(self.ws).encode(), rng.choice([b"-", b"", b"&shy;"]), rng.randint(0, 1), h=h)
        elif k < .72:
            s.text(rng.choice(["tok", "sent"]), rng.choice(self.paras), h=h)
        elif k < .82:
            s.gramall(rng.choice(self.paras), h=h)
        elif k < .87:
            s.gram(rng.choice(self.paras), rng.choice([0, 4]), rng.choice([0, 1]), h=h)
        elif k < .89:
            s.attr(rng.choice(["CLASS", "NUMBER", "SIJAMUOTO", "X"]), h=h)
        elif k < .98:
            s.setb(rng.choice(words.BOOL), rng.randint(0, 1), h=h)
        else:
            s.seti(*rng.choice([(17, -1), (17, 0), (17, 1), (9, 2), (9, 4)]), h=h)

    def finish(self):
        for h in sorted(self.up):
            self.s.term(h)
        self.up = {}


def check(ctx):
    rng = ctx.rng
    ctx.model("Par", CFG % (", 3" if not ctx.quick else "", ctx.n(3, 2), "FALSE"), what="answers of threads with handles of their own, in all interleavings of calls", workers=8)
    ctx.model("Par", CFG % ("", 2, "TRUE"), expect_error="Invariant AsAlone is violated", what="working storage shared by handles is caught")
    ds = [dicts.FinnishDict("core", words.core_lexicon(rng, 60), auto=dict(c11.AUTO))] + c11.make_dicts(rng, 1)
    while True:
        f = c08.random_fst(rng, letters="abcA", outs=False)
        e = c08.error_model(rng, "abcA")
        if f.size("") and f.size("")[0] == 0:
            vw = [w for w in c08.words_for(rng, f, "abcA", 25) if w]
            sm = [w for w in vw if all(x in "abcA" for x in w) and (e.size(w, 3000, 400) or (999,))[0] < 400 and c08.cost(e, f, w) < 1500]
            if len(sm) > 3:
                break
    vd = dicts.VfstDict("err", f, f, e)
    root = ctx.write_dicts(ds + [vd])
    top = ctx.scratch / "fs"
    top.mkdir()
    w = worlds.World("w", top)
    place = top / "p"
    w.add(place, "mor-a", HEAD + "Language: fi\nDescription: a\n")
    w.add(place, "mor-b", HEAD + "Language: fi-x-b\nDescription: b\n")
    w.add(place, "mor-c", HEAD + "Language: sv\nDescription: c\n")
    w.add_raw(place, "mor-d", HEAD + "Language: fi-x-broken\n", dict(mor=b"abc", autocorr=b""))
    w.write(root)
    ws = list(ds[0].lex) + list(ds[1].lex)
    runs = {"tsan": [], "asan": []}
    for i in range(ctx.n(26, 200)):
        flavour = "asan" if i % 5 == 4 else "tsan"
        n = rng.choice([2, 3, 3, 4, 5])
        s = Session("threads%d" % i, env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"})
        env = worlds.Env(s, w)
        env.set(None, None)
        callers = []
        # the threads ask about the same things
        hot = rng.sample(ws, 12)
        paras = [c11.paragraph(rng, ws)[:120] for _ in range(5)]
        for t in range(n):
            q = Session("t")
            ev = worlds.Env.__new__(worlds.Env)
            ev.s, ev.w, ev.path, ev.dict, ev.place = q, w, None, None, place
            callers.append(Caller(rng, q, [3 * t, 3 * t + 1, 3 * t + 2], ev, root, ds, hot, paras, (vd, vw, sm)))
        first = rng.random()
        for rnd in range(rng.choice([1, 2, 3])):
            for c in callers:
                for _ in range(rng.randint(20, ctx.n(60, 120))):
                    c.step()
            if first < .5 or rnd > 0:
                pass
            s.calls.append(("par\t%d" % n, {}))
            left = [list(c.s.calls) for c in callers]
            for c in callers:
                c.s.calls.clear()
            while any(left):
                t = rng.choice([t for t in range(n) if left[t]])
                cmd, e_ = left[t].pop(0)
                s.calls.append(("%d\t%s" % (t, cmd), e_))
            s.calls.append(("endpar", {}))
        for c in callers:
            c.finish()
            s.calls += c.s.calls
        runs[flavour].append(s)
    for fl in runs:
        ctx.validate(runs[fl], root, flavour=fl)
