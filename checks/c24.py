"""C24: statistics of texts (tools/pylib/voikkostatistics.py), computed in a Python interpreter with the library of the working
tree; counts and indices are decided by the specification of tokens, sentences, analyses and hyphenation."""
import subprocess
import conform, vbuild, dicts, words, c11, c19
from conform import cps, txt


def statistics(rng, name, ds, root, n):
    s = c19.Bound("py", name)
    d = rng.choice(ds)
    s.new(d, root)
    s.uses.append(d.name)
    ws = list(d.lex)
    while len(s.calls) < n:
        k = rng.random()
        if k < .12:
            s.set(rng.choice(["setIgnoreDot", "setNoUglyHyphenation", "setHyphenateUnknownWords", "setAcceptMissingHyphens", "setIgnoreUppercase"]), rng.randint(0, 1))
            continue
        if k < .16:
            s.set("setMinHyphenatedWordLength", rng.randint(0, 8))
            continue
        if k < .5:
            t = c19.text(rng, ws, "py", d.paras)
        else:
            # known and unknown words in sentences
            t = ""
            for _ in range(rng.randrange(0, 14)):
                w = rng.choice(ws) if rng.random() < .75 else words.word(rng, ws)
                if rng.random() < .2:
                    w = w[:1].upper() + w[1:]
                t += w + rng.choice([" ", " ", " ", " ", ", ", ". ", "! ", "? ", ": ", "... ", ".", "-", "; ", "\n", " \u2013 "])
            if rng.random() < .5:
                t = t.rstrip() + rng.choice([".", "!", "", "?", "..."])
        s.word("bstat", t)
    for t in ("", " ", ".", "\n", "a", "1", "\0"):
        s.word("bstat", t)
    return s


def check(ctx):
    rng = ctx.rng
    asan = ctx.scratch / "asan"
    asan.mkdir()
    vbuild.build_lib(asan, "asan")
    preload = " ".join(subprocess.run(["g++", "-print-file-name=" + x], capture_output=True, text=True).stdout.strip() for x in ("libasan.so", "libstdc++.so.6"))
    drv = ["python3", conform.VERIF / "driver" / "pydriver.py", vbuild.REPO / "libvoikko" / "python", asan, vbuild.REPO / "tools" / "pylib"]
    ds = [dicts.FinnishDict("core", words.core_lexicon(rng, 150), auto=dict(c11.AUTO))] + c11.make_dicts(rng, 2)
    for d in ds:
        d.paras = [c11.paragraph(rng, list(d.lex))[:100] for _ in range(40)]
    root = ctx.write_dicts(ds)
    (root / "messages.json").write_text('{"kind": "world"}')
    ss = [statistics(rng, "s%d" % i, ds, root, ctx.n(60, 200)) for i in range(ctx.n(16, 120))]

    def rec(s):
        s.env = {"LD_PRELOAD": preload}
        return conform.record(drv, s, 120)
    ctx.validate(ss, root, recorder=rec)
