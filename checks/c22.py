"""C22: from the vocabulary to the dictionary (voikko-fi).  Random vocabularies are made into dictionaries with the makefile of
the working tree under random options; Vocab.tla says which forms of which entries the dictionary knows, with which class,
base form, structure and grammatical attributes, and which forms it must not know; the questions that TLC derives from the
vocabulary are put to the library with that dictionary and the answers checked against Vocab.tla."""
import json
import afftab, conform, vbuild, vocab
from conform import Session, cps, txt

STYLES = ["old", "international", "inappropriate", "dialect", "foreign", "incorrect", "foreignloan"]
USAGES = ["it", "medicine", "science", "education", "orgname", "nature", "human"]
# where the lexicon and the tables of inflection differ: ko'on (the lexicon has koon); defective classes; sons (the table has plural forms
# in the singular)
EXCEPT = [("koko", "valo-av5"), ("?u", "valo-av5"), ("?y", "valo-av5"), ("*", "haravoida-av2"), ("*v", "nuolaista-av2"), ("*mm", "kohota-av2"), ("*", "poika"), ("*rt", "aavistaa-av1")]
SHAPES = [s for s in vocab.SHAPES if not any(s[0].startswith(w) and s[2] == c for w, c in EXCEPT)]


def decorate(rng, e):
    """Flags that decide whether the entry belongs to the dictionary"""
    k = rng.random()
    if k < .1:
        e["style"] = rng.sample(STYLES, rng.choice([1, 1, 2]))
    elif k < .2:
        e["usage"] = rng.sample(USAGES, rng.choice([1, 1, 2]))
    elif k < .3:
        e["freq"] = rng.randrange(1, 12)
        if rng.random() < .5:
            e["frequency"] = ["confusing"]
    elif k < .33:
        e["application"] = [rng.choice(["not_voikko", "not_sukija"])]
    elif k < .36:
        e["style"], e["usage"] = [rng.choice(STYLES)], [rng.choice(USAGES)]


def marked(rng, v, w, shape):
    """Marks of structure in a word, capital letters"""
    k = rng.random()
    if k < .1:
        return vocab.stem(rng, rng.random() < .5) + "a=" + w
    if k < .15:
        return vocab.stem(rng, rng.random() < .5) + "o-" + w
    if k < .2 and shape[0] == "*" and len(w) > len(shape) + 1:
        return w[:2] + "|" + w[2:]
    return w


def vocabulary(rng, n, every=False):
    v = vocab.Vocabulary(rng)
    l = list(SHAPES) if every else []
    while l or len(v.entries) < n:
        k = rng.random()
        if l or k < .88:
            shape, back, cls, wc = l.pop() if l else rng.choice(SHAPES)
            back = back == "back"
            if "*" not in shape and "?" not in shape and shape in v.words:
                continue
            w = v.word(shape, back)
            if cls.partition("-")[0] in ("sisin", "suurempi"):      # comparative and superlative
                wc = ["adjective"]
            elif wc == "any":
                wc = rng.choice([["noun"], ["noun"], ["noun"], ["adjective"], ["noun", "adjective"], ["adjective", "noun"], ["pnoun_place"], ["pnoun_firstname"], ["pnoun_lastname"], ["pnoun_misc"]])
            elif wc == "noun":
                wc = rng.choice([["noun"], ["noun"], ["pnoun_place"], ["pnoun_lastname"]])
            else:
                wc = [wc]
            w = marked(rng, v, w, shape)
            if wc[0].startswith("pnoun"):
                w = w[:1].upper() + w[1:] if rng.random() < .8 else w
                if ("=" in w or "-" in w) and rng.random() < .5:
                    i = max(w.find("="), w.find("-")) + 1
                    w = w[:i] + w[i].upper() + w[i + 1:]
                elif "=" not in w and rng.random() < .1 and len(w) > 4:
                    w = w[:3] + w[3:4].upper() + w[4:] if w[3] not in "|-" else w
            e = v.add([w], wc, cls)
            k = rng.random()
            if wc == ["verb"]:
                if k < .05:
                    e["inflection"] = ["ym3"]
                elif k < .25:
                    e["grammar"] = [rng.choice(["require_following_a", "require_following_ma"])]
            elif k < .04:
                e["inflection"] = ["ei_yks"]
            elif k < .2:
                e["compounding"] = rng.choice([["ei_ys"], ["ei_ysa"], ["ei_ysj"], ["ysj"], ["ei_ysa", "ei_ysj"], ["ei_ysj", "ei_ysa"]])
            elif k < .3 and shape[-1] in "ie":
                e["vow"] = rng.choice(["front", "back", "both"])
            elif k < .4 and "=" not in w and "-" not in w and "|" not in w and shape[0] == "*":
                # the second form may have the other harmony
                s2 = [x for x in SHAPES if x[2] == cls and x[0][0] == "*"]
                s2 = rng.choice([x for x in s2 if (x[1] == "back") != back] or s2)
                w2 = v.word(s2[0], s2[1] == "back")
                e["forms"].append(cps(w2[:1].upper() + w2[1:] if w[0].isupper() else w2))
            if wc == ["adjective"] and cls.partition("-")[0] not in ("sisin", "suurempi") and rng.random() < .3:
                e["inflection"] = ["ei_vertm"]
            if rng.random() < .05:
                e["c"], e["g"] = rng.choice(["", "poikkeava"]), "-"
        else:
            wc = rng.choice(["adverb", "conjunction", "interjection", "abbreviation", "prefix", "adverb"])
            w = v.word("*" + rng.choice(["", "a", "in", "sti"]), rng.random() < .5)
            e = v.add([w], [wc])
            if wc == "abbreviation":
                if rng.random() < .4:
                    e["forms"] = [cps(w.upper())]
                elif rng.random() < .5:
                    e["forms"] = [cps(w + ".")]
                if rng.random() < .3:
                    e["inflection"] = ["none"]
            elif wc == "prefix":
                e["compounding"] = [rng.choice(["eln", "ell", "elt"])] if rng.random() < .7 else rng.choice([["eln", "ell"], ["ell", "eln"], ["elt", "eln", "ell"]])
            elif wc == "adverb" and rng.random() < .5:
                e["inflection"] = rng.sample(["liitesana", "omistusliite"], rng.choice([1, 1, 2]))
                rng.shuffle(e["inflection"])
            elif rng.random() < .3:
                e["forms"].append(cps(v.word("*a", True)))
            elif rng.random() < .4:
                e["base"] = cps(v.word("*", True))
        decorate(rng, e)
    return v


def pairs_of(rng, voc, n):
    """Compounds of two nouns; of a prefix and a word"""
    plain = [e for e in voc.entries if e["c"] in ("valo", "risti", "kala", "koira", "paperi", "punoa", "muistaa") and not set(e["forms"][0]) & set(cps("=|-"))]
    nouns = [e for e in plain if e["wc"] == ["noun"]]
    others = [e for e in plain if e["wc"] in (["adjective"], ["verb"])]
    prefixes = [e for e in voc.entries if e["wc"] == ["prefix"]]
    pairs = [[rng.choice(nouns), rng.choice(nouns)] for _ in range(n)] if nouns else []
    if nouns and others and prefixes:
        pairs += [[rng.choice(prefixes), rng.choice(rng.choice([nouns, others]))] for _ in range(n)]
    return pairs


def questions(ctx, voc, o, pairs, k):
    """TLC derives the questions"""
    data = vbuild.REPO / "data"
    tables = {f: afftab.read(data / (f + ".aff")) for f in ("subst", "verb")}
    jobs = 8
    parts = [voc.entries[i::jobs] for i in range(jobs)]

    def one(i):
        f, out = ctx.scratch / ("voc-%s-%d.json" % (k, i)), ctx.scratch / ("q-%s-%d.json" % (k, i))
        f.write_text(json.dumps(dict(entries=parts[i], o=o, tables=tables, pairs=pairs[i::jobs])))
        rc, log = conform.tlc("VocabGen", "INIT Init\nNEXT Next\n", env={"VOC": str(f), "OUT": str(out)})
        if rc != 0:
            raise conform.ModelError(log[-3000:])
        return json.loads(out.read_text())
    return [q for l in conform.pmap(one, range(jobs), jobs) for q in l]


def corrections(rng, voc, n):
    """Entries of the autocorrect file: words of the vocabulary split, joined or changed; = marks a border that is not written"""
    r = {}
    for _ in range(n):
        a, b = vocab.stem(rng, True) + rng.choice("ao"), vocab.stem(rng, False) + rng.choice("\u00e4i")
        k = rng.random()
        x, y = (a + "=" + b, a + " " + b) if k < .3 else (a + " " + b, a + "=" + b) if k < .6 else (a, b) if k < .7 else (a + " " + b + " " + a, b) if k < .8 else (a + b, a + " " + b + "=" + a) if k < .9 else (a + "-" + b, a + b)
        # (of two phrases, one the beginning of the other, only the shorter is looked for)
        if not any((p + " ").startswith(x[:4]) for p in r):
            r[x] = y
    return r


def check(ctx):
    rng = ctx.rng
    tools = ctx.scratch / "tools"
    tools.mkdir()
    vbuild.build_tool(tools, "voikkovfstc", "asan")
    sessions = []
    for k in range(ctx.n(3, 10)):
        voc = vocabulary(rng, ctx.n(480, 1400), every=k == 0)
        o = dict(style=["old", "international", "inappropriate"], usage=[], freq=9)
        opts = ["--sourceid"]
        if k:
            if k == 1 or rng.random() < .8:
                o["style"] = rng.sample(STYLES, rng.randrange(2, 5))
                opts.append("--style=" + ",".join(o["style"]))
            if k == 1 or rng.random() < .8:
                o["usage"] = rng.sample(USAGES, rng.randrange(2, 5))
                opts.append("--extra-usage=" + ",".join(o["usage"]))
            if k == 2 or rng.random() < .6:
                o["freq"] = rng.choice([7, 8]) if k == 2 else rng.choice([2, 5, 7, 7, 8, 9, 10])
                opts.append("--min-frequency=%d" % o["freq"])
            rng.shuffle(opts)
        pairs = pairs_of(rng, voc, ctx.n(60, 200))
        auto = corrections(rng, voc, 40)
        odd = None
        if k == 0:
            odd = voc.add(["longertaa"], ["verb"], "aavistaa-av1")
        qs = questions(ctx, voc, o, pairs, k)
        strange = [q for q in qs if odd and q["id"] == odd["id"] and q["w"] == cps("longertaa")]
        qs = [q for q in qs if not odd or q["id"] != odd["id"]]
        work = ctx.scratch / ("build%d" % k)
        work.mkdir()
        inst, log = vocab.build(vbuild.REPO / "voikko-fi", voc, work, " ".join(opts), tools, auto)
        for part, qq in enumerate([qs[i::8] for i in range(8)] + ([strange] if odd else [])):
            s = Session("voc%d-%d" % (k, part))
            # a vocabulary that cannot be made into a dictionary leaves nothing to open
            s.call("init\t0\tfi-x-voc\t%s" % (inst or work / "none"), op="open", h=0, d="", why="" if inst else log[-1500:])
            for q in qq:
                s.call("anaU\t0\t%s" % txt(q["w"]), op="voc", h=0, t=q["w"], x=q, idt=cps(q["id"]), id2t=cps(q["id2"]))
            if part == 0:
                for x, y in auto.items():
                    x, y = x.replace("=", ""), y.replace("=", "")
                    t = "12 " + x + " 3."
                    s.call("gramAllU\t0\tz\t%s\t0" % txt(cps(t)), op="auto", h=0, t=cps(t), x=[dict(code=1, pos=3, len=len(x), sugg=[list(y.encode("utf-8"))])])
                    t = "12 " + x.replace(" ", "") + "x 3."
                    s.call("gramAllU\t0\tz\t%s\t0" % txt(cps(t)), op="auto", h=0, t=cps(t), x=[])
            sessions.append(s)
    ctx.validate(sessions, module="VocabTrace")
