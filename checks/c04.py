"""C04: answers do not depend on earlier calls."""
import json, re
from conform import Session, cps
import dicts, words, work, c02, c05, c11, c14

CFG = "INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Faithful Memoryless\nCONSTANT Forgetful = %s\nCHECK_DEADLOCK FALSE\n"
ORDERS = [0, 3, 5, 6, 7, 7, 7, 7, 7, 7, 7]


def hash_(w, size=0):
    h = 0
    for c in w:
        h = (h * 37 + ord(c)) % (1 << (ORDERS[len(w)] + size))
    return h


def colliding(rng, w, size=0, alphabet="aeikostu\u00e4lmn-"):
    """another string of the same length that shares the slot of w"""
    for _ in range(4000):
        x = "".join(rng.choice(alphabet) for _ in w)
        if x != w and hash_(x, size) == hash_(w, size):
            return x
    return w


def history(s, h, calls, ws, ps, variants, rng):
    for c in calls:
        if c[0] == "spell":
            s.word("spell", rng.choice(variants[ws[c[1] - 1]]), h=h)
        elif c[0] == "gram":
            s.gramall(ps[c[1] - 1], h=h)
        elif c[0] == "set":
            s.setb(c[1], c[2], h=h)
        else:
            s.seti(17, c[1], h=h)


def check(ctx):
    rng = ctx.rng
    lex = words.core_lexicon(rng, 60)
    for w, o in c11.base_lexicon(rng).items():
        lex.setdefault(w, o)
    # entries that share their slot with other strings: words, names (different verdicts) and misspellings
    clash = {}
    for w in ["koira", "talo", "auto", "maa", "on", "isi", "lapset", "helsinki", "matti", "suomi"]:
        if w in lex or w in ("isi", "lapset"):
            clash[w] = [colliding(rng, w) for _ in range(3)]
            x = clash[w][0]
            if not x.startswith("-") and not x.endswith("-") and "--" not in x:
                lex[x] = ["[Lep][Xp]%s[X]%s[Sn][Ny]" % (x[:1].upper() + x[1:], x)] if len(clash) % 2 else ["[Ln][Xp]%s[X]%s[Sn][Ny]" % (x, x)]
    d = dicts.FinnishDict("hist", lex, auto=dict(c11.AUTO))
    e = dicts.FinnishDict("other", {w: [o.replace("[Ln]", "[Lep]") for o in lex[w]] for w in list(lex)[::2] if all(dicts.well_formed(w, o) for o in lex[w])}, auto={"koira on": "hau"})
    root = ctx.write_dicts([d, e])
    # 1. the design of the caches, exhaustively; its transitions, replayed
    ws = ["syys-ilta", clash["koira"][0], "koira", "lais", "kissa-koira"]
    ps = ["Koira on on", "lais on. Lais-. koira", "1.2 Lais. kissa-koira. Lais"]
    one = ctx.scratch / "one.json"
    one.write_text('{"hist":%s}' % (root / "hist.json").read_text())
    inp = ctx.scratch / "cache.json"
    inp.write_text(json.dumps({"d": "hist", "words": [cps(w) for w in ws], "paras": [cps(p) for p in ps]}))
    env = {"DICTS": str(one), "CACHE": str(inp)}
    out = ctx.model("Cache", CFG % "TRUE" + "ACTION_CONSTRAINT Emit\n", env=env, what="cached verdicts and errors are always those that would be computed now (all histories over 5 words, 3 paragraphs, 4 options, 3 cache sizes)", workers=1)
    ctx.model("Cache", CFG % "FALSE", env=env, expect_error="Invariant Faithful is violated", what="a cache that survives a change of options is caught (the invariant is not vacuous)")
    hist = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"HISTORY", "(.*)">>', out)]
    if len(hist) < 1000:
        raise RuntimeError("no histories")
    ctx.notes.append("%d histories, one per transition of the cache model" % len(hist))
    rng.shuffle(hist)
    hist = hist[:ctx.n(2400, 40000)]
    variants = {w: [w, w, w, w[:1].upper() + w[1:], w.upper()] for w in ws}
    ss = []
    for part in work.split(hist, 16):
        s = Session("transitions")
        for calls in part:
            s.open(d.name, d.lang, root)
            history(s, 0, calls, ws, ps, variants, rng)
            s.term()
        ss.append(s)
    # 2. long histories mixing all functions and several handles
    pool = sum(clash.values(), []) + list(clash) + list(lex)
    for part in range(24):
        s = Session("mixed")
        up, recent = {}, []
        hot = [rng.choice(pool) for _ in range(12)] + [x for k in rng.sample(sorted(clash), 4) for x in [k] + clash[k]]
        paras = [c11.paragraph(rng, list(lex)) for _ in range(6)]
        paras += [p + rng.choice([" ", ".", " on"]) for p in paras[:3]] + [p[:-1] for p in paras[:3] if len(p) > 1]
        for i in range(ctx.n(450, 5000)):
            if not up or (len(up) < 4 and rng.random() < .02):
                h = rng.choice([x for x in range(6) if x not in up])
                up[h] = d if rng.random() < .6 else e
                s.open(up[h].name, up[h].lang, root, h=h)
            h = rng.choice(sorted(up))
            k = rng.random()
            if recent and rng.random() < .3:
                f, a = rng.choice(recent[-12:])          # something asked before, perhaps of another handle
            elif k < .5:
                w = words.cases(rng, rng.choice(hot) if rng.random() < .8 else words.word(rng, pool))
                f, a = "word", ("spell", w)
            elif k < .56:
                f, a = "word", (rng.choice(["hyph", "ana"]), words.cases(rng, rng.choice(hot)))
            elif k < .575:
                f, a = "word", ("sugg", c05.misspelling(rng, hot))
            elif k < .68:
                f, a = "gramall", (rng.choice(paras),)
            elif k < .74:
                f, a = "gram", (rng.choice(paras), rng.choice([0, 0, 3, 9]), rng.choice([0, 1, 2]))
            elif k < .80:
                f, a = "text", (rng.choice(["tok", "sent"]), rng.choice(paras))
            elif k < .94:
                f, a = "setb", (rng.choice([11, 12, 11, 12, 13, 14, 16] + words.BOOL), rng.randint(0, 1))
            elif k < .98:
                f, a = "seti", rng.choice([(17, -1), (17, 0), (17, 1), (17, 2), (17, 5), (9, 3), (9, 2), (9, 5)])
            elif len(up) > 1:
                s.term(h)
                del up[h]
                continue
            else:
                continue
            if f not in ("setb", "seti") and a[0] != "sugg":
                recent.append((f, a))
            getattr(s, f)(*a, h=h)
        ss.append(s)
    # 3. words in the first and last slots of each length, ordinary words and names, asked in turn
    edge = {}
    for n in range(1, 11):
        for size in (0, 1):
            top = 1 << (ORDERS[n] + size)
            for slot in (0, 1, 2, top - 3, top - 2, top - 1):
                for _ in range(3000):
                    x = "".join(rng.choice("aeiklmnoprstu\u00e4") for _ in range(n))
                    if hash_(x, size) == slot and x not in edge:
                        edge.setdefault(x, ["[Lep][Xp]%s[X]%s[Sn][Ny]" % (x.capitalize(), x)] if rng.random() < .5 else ["[Ln][Xp]%s[X]%s[Sn][Ny]" % (x, x)])
                        if sum(hash_(y, size) == slot and len(y) == n for y in edge) > 1:
                            break
    f = dicts.FinnishDict("edge", {w: o for w, o in edge.items() if rng.random() < .9}, auto={"x": "y"})
    f.write(root)
    (root / "edge.json").write_text(json.dumps(f.json()))
    for size in (0, 0, 0, 1, 1):
        s = Session("edges")
        s.open(f.name, f.lang, root)
        s.seti(17, size)
        for i in range(ctx.n(10, 60)):
            n = rng.randint(1, 9)
            ws = [w for w in edge if len(w) in (n, n + 1)]
            for _ in range(40):
                w = rng.choice(ws)
                s.word("spell", rng.choice([w, w, w, w.capitalize()]))
        ss.append(s)
    # 4. every string of one or two letters, twice: all slots of the short words
    letters = sorted({c for w in lex for c in w})
    for size in (0, 1, 3):
        s = Session("slots")
        s.open(d.name, d.lang, root)
        s.seti(17, size)
        short = list(work.strings("aeonsxi.-", 2)) + [w for w in lex if len(w) <= 11]
        for rnd in range(2):
            rng.shuffle(short)
            for w in short[:ctx.n(400, 2000)]:
                s.word("spell", w)
                s.word("spell", w[:1].upper() + w[1:] if rnd else w)
        ss.append(s)
    ctx.validate(ss, root)
