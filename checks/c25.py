"""C25: the JavaScript module.  Its source is run by node, with the names Emscripten gives to it defined over a watched memory
(driver/js/driver.js) and the library built from the working tree behind them (driver/js/bridge.cpp)."""
import conform, vbuild, dicts, words, c05, c11, c19



def history(rng, name, ds, root, n):
    s = c19.Bound("js", name)
    s.uses += [d.name for d in ds]
    up, ever = {}, set()
    while len(s.calls) < n:
        h = rng.choice(range(3))
        k = rng.random()
        if h not in up:
            if h in ever and k < .25:
                w = rng.choice(list(ds[0].lex))
                q = rng.random()
                if q < .4:
                    s.word(rng.choice(["bspell", "bsugg", "bhyph", "bana", "btok", "bsent"]), w, h)
                elif q < .5:
                    s.insh(w, h=h)
                elif q < .65:
                    s.gram(w + "  on.", "fi", h)
                elif q < .75:
                    s.attr("CLASS", h)
                elif q < .85:
                    s.set(rng.choice(c19.SETB), 1, h)
                else:
                    s.do("bterm", h)
            elif k < .3:
                s.new(None, root, h, rng.choice(["xx", "\u00e4", "fi-x-puuttuu"]))
            else:
                d = rng.choice(ds)
                s.new(d, root, h)
                up[h] = d
            continue
        d = up[h]
        ws = s.__dict__.setdefault("ws", {}).setdefault(d.name, rng.sample(list(d.lex), min(30, len(d.lex))))
        if k < .03:
            s.do("bterm", h)
            del up[h]
            ever.add(h)
        elif k < .2:
            w = words.cases(rng, rng.choice(ws))
            if rng.random() < .2:
                w = c19.astral(rng, w, .2)
            elif rng.random() < .1:
                w += rng.choice(["\0", "\0a", ".", "-", "'"])
            s.word("bspell", w, h)
        elif k < .27:
            s.word("bsugg", c05.misspelling(rng, ws) if rng.random() < .9 else rng.choice(ws) + "\0", h)
        elif k < .4:
            w = words.word(rng, ws)
            if rng.random() < .2:
                w = c19.astral(rng, w, .2)
            s.word("bhyph", w, h)
        elif k < .5:
            w = words.word(rng, ws)
            if rng.random() < .15:
                w = c19.astral(rng, w, .2)
            if rng.random() < .3:
                s.insh(w, h=h)
            else:
                s.insh(w, rng.choice(["-", "", "&shy;", "\u00ad", "\U0001f600", "=\0", "::"]), rng.choice("01"), h)
        elif k < .6:
            s.word("bana", rng.choice(ws) if rng.random() < .8 else words.word(rng, ws), h)
        elif k < .7:
            s.word("btok", c19.text(rng, ws, "js", d.paras), h)
        elif k < .77:
            s.word("bsent", c19.text(rng, ws, "js", d.paras), h)
        elif k < .9:
            s.gram(c19.text(rng, ws, "js", d.paras), rng.choice(["fi", "fi", "en", "sv", "fi_FI", ""]), h)
        elif k < .93:
            s.attr(rng.choice(["CLASS", "NUMBER", "SIJAMUOTO", "MOOD", "NEGATIVE", "STRUCTURE", "X", "", "\0", "CLASS\0", "\u00e4"]), h)
        elif rng.random() < .15:
            s.set("setMinHyphenatedWordLength", rng.randint(0, 8), h)
        else:
            s.set(rng.choice(c19.SETB), rng.randint(0, 1), h)
    return s


def check(ctx):
    rng = ctx.rng
    drv = vbuild.build_driver(ctx.scratch, "asan", source="js/bridge.cpp", name="bridge")
    ds = [dicts.FinnishDict("core", words.core_lexicon(rng, 120), auto=dict(c11.AUTO))] + c11.make_dicts(rng, 1)
    for d in ds:
        d.paras = [c11.paragraph(rng, list(d.lex))[:100] for _ in range(40)]
    root = ctx.write_dicts(ds)
    c19.messages(ctx, root)
    ss = [history(rng, "js%d" % i, ds, root, ctx.n(130, 260)) for i in range(ctx.n(20, 160))]
    ss.append(c19.longs(rng, "js", ds[0], root))

    def rec(s):
        s.env["NODE_OPTIONS"] = "--max-old-space-size=600"
        return conform.record([drv, conform.VERIF / "driver" / "js" / "driver.js", vbuild.REPO / "libvoikko" / "js" / "libvoikko_api.js"], s, 100)
    ctx.validate(ss, root, recorder=rec)
