"""C12: the search for dictionaries."""
from conform import Session
import worlds

CFG = 'INIT Init\nNEXT Next\nINVARIANTS EachOnce Reachable DefaultFirst\nCONSTANTS Tags = {%s}\nN = %d\nCHECK_DEADLOCK FALSE\n'
MODEL_TAGS = ["fi", "fi-x-default", "fi-x-standard", "fi-x-abc", "fi-x-murre", "fi-Latn-x-default", "sv", "FI_fi-x-Mur-re"]
TAGS = ["fi", "fi-x-default", "fi-x-standard", "fi-x-abc", "fi-x-murre", "fi-x-zzzzz", "fi-x-z", "fi-Latn-x-default", "fi-Latn", "fi-Cyrl-x-standard", "fi-latn", "fi-Lat", "fi-Latin",
        "sv", "sv-x-default", "sv-x-standard", "sv-x-abcde", "sv-x-zz", "se-x-standard", "smn-x-abc", "FI-x-ABC", "fi_FI", "fi_FI-x-Murre", "fi-x-pitka-sana-on-nyt", "fi-x-dialects", "fi-x-medicine",
        "fi-x-science", "fi-x-standard-b", "fi-x-sta-ndard", "fi-x-DEFAULT", "fi-x-def-ault", "aaaaaaaaaa", "qaaqaaqaaq-x-b", "fi-x-standar", "fi-x-xstandard", "x", "fi-Latn-x-murre", "kpv-x-a", "kpv-x-bbbb", "kpv-x-bbb"]
HEAD = "Voikko-Dictionary-Format: 5"
BAD = ["Voikko-Dictionary-Format: 5 ", "Voikko-Dictionary-Format: 5\r", "Voikko-Dictionary-Format: 4", "Voikko-Dictionary-Format: 55", " " + HEAD, "voikko-dictionary-format: 5", "", "Voikko-Dictionary-Format:5", "2"]


def norm(tag):
    """the identity of a tag, to keep the generated worlds free of ambiguity within one directory"""
    a, x, use = tag.partition("-x-")
    l, _, sc = a.partition("-")
    l = l.split("_")[0].lower()
    sc = sc if len(sc) == 4 else ""
    return l, sc, use.replace("-", "").lower()


def index(rng, tag):
    r = rng.random()
    lines = [HEAD if r > .12 else rng.choice(BAD)]
    rest = []
    if tag is not None:
        rest.append("Language: " + tag)
    k = rng.random()
    if k < .7:
        rest.append("Description: " + rng.choice(["suomi", "suomi (perussanasto)", "Ä ö 漢字 €", "", " x ", "Language: sv", "a\tb"]))
    if rng.random() < .3:
        rest.append(rng.choice(["Morphology-Backend: finnishVfst", "Speller-Backend: FinnishSpellerTweaksWrapper(AnalyzerToSpellerAdapter(currentAnalyzer),currentAnalyzer)",
                                "Hyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)", "Suggestion-Backend: FinnishSuggestionStrategy(currentAnalyzer)"]))
    if rng.random() < .3:
        rest.append(rng.choice(["", "info: x", " Language: sv-x-q", "language: sv", "Language:sv", "Xanguage: sv", "Copyright: y Language: se"]))
    rng.shuffle(rest)
    return "\n".join(lines + rest) + rng.choice(["\n", "", "\n\n"])


def check(ctx):
    rng = ctx.rng
    ctx.model("MCSelect", CFG % (",".join('"%s"' % t for t in MODEL_TAGS), ctx.n(3, 4)), what="each tag listed once, from the first place that has it; every listed dictionary can be selected; defaults come first (up to %d dictionaries with 8 tags in 3 places)" % ctx.n(3, 4), workers=8)
    top = ctx.scratch / "fs"
    ctx.dictpath = "sys1:sys2"      # relative to the working directory, which is different for each world
    root = ctx.scratch / "dicts"
    root.mkdir()
    ss = []
    nw = ctx.n(36, 300)
    for k in range(nw):
        t = top / ("w%d" % k)
        t.mkdir(parents=True)
        w = worlds.World("w%d" % k, t, sys=["sys1", "sys2"], home=t / rng.choice(["home", "home/user"]))
        places = [t / "p1", t / "p2", t / "p3", w.home / ".voikko", "sys1", "sys2"]
        pool = rng.sample(TAGS, rng.randint(3, 9)) + (["fi", "fi-x-default", "fi-x-standard"] if rng.random() < .4 else [])
        for p in places:
            seen, defaults = set(), set()
            for i in range(rng.choice([0, 1, 2, 2, 3]) if k % 9 else rng.choice([0, 0, 0, 1])):
                tag = rng.choice(pool + [None] + ([""] if rng.random() < .2 else []))
                n = norm("fi" if tag is None else tag)
                if n in seen or (n[2] == "default" and n[0] in defaults):
                    continue
                seen.add(n)
                if n[2] == "default":
                    defaults.add(n[0])
                if w.n < 20:
                    w.add(p, rng.choice(["mor-%d", "mor-%d", "mor-%d", "mor-x%d", "xmor-%d", "mor%d", "MOR-%d", "mor-%d.bak"]) % i, None if rng.random() < .03 else index(rng, tag))
            # spellers in archives
            zseen, names = set(), set()
            for i in range(rng.choice([0, 0, 1, 2]) if k % 3 == 0 else 0):
                tag = rng.choice(pool)
                n = norm(tag)
                if n in zseen or (n[2] == "default" and n[0] in defaults) or w.n >= 20:
                    continue
                zseen.add(n)
                if n[2] == "default":
                    defaults.add(n[0])
                w.add_zhfst(p, rng.choice(["%d.zhfst", "%d.zhfst", "%d.zhfst", "se%d.zhfst", ".%d.zhfst", "%d.zhfst.bak", "x%d.ZHFST", "%d.zip", "d.zhfst%d.zhfst"]) % i, tag, rng.choice(["davvi", "A - B (c)", "S\u00e1mi"]), rng.random() > .15)
        if rng.random() < .2 and "mor-" not in str(w.places.keys()):
            w.add(places[0], "mor-", HEAD + "\nLanguage: fi-x-empty\n")
        w.write(root)
        s = Session("world%d" % k)
        s.cwd = t
        e = worlds.Env(s, w)
        ask = sorted({x for p in pool for x in (p, p.upper() if rng.random() < .2 else p)}) + ["fi", "fi", "fi-x-default", "fi-x-standard", "sv", "fi_FI", "", "xx", "fi-x-", "-x-abc", "fi-x-ei-ole", "fi-Latn", "Fi-x-a-bc", None]
        P = [str(p) for p in places[:3]]
        for i in range(ctx.n(16, 30)):
            e.set(path=rng.choice([None, "", P[0], P[1] + ":" + P[2], ":".join(P), ":" + P[2], P[0] + "::" + P[0], P[1] + ":", "/nonexistent:" + P[1], ":".join(rng.sample(P, 2))]) if rng.random() < .5 or i == 0 else "same",
                  dic=rng.choice([None, None, "", "murre", "Abc", "standard", "default", "a-bc", "nope"]) if rng.random() < .3 or i == 0 else "same")
            path = rng.choice([None, "", P[0], P[1], P[2], "/nonexistent/x", P[0]])
            e.listd(path)
            e.caps(path)
            for lang in rng.sample(ask, ctx.n(4, 8)):
                h = rng.randint(0, 3)
                e.close(h)
                e.pick(lang, path, h)
                e.who(w.ids, h)             # which dictionary it is
                if rng.random() < .9:
                    e.close(h)
        ss.append(s)
    ctx.validate(ss, root)
