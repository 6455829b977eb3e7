"""Synthetic lexicon entries: words over small alphabets with random, well-formed outputs."""

CLASSES = "n l nl h ee es ep em t a s u ur r c d k p".split()
CASES = "n g p es tr ine ela ill ade abl all ab ko in sti ak".split()


def section(rng, name, s):
    return "[X%s]%s[X]" % (name, s)


def base(rng, part, cap=False):
    b = part if rng.random() < .7 else part + rng.choice(["", "s", "nen", "=n"])
    return b[:1].upper() + b[1:] if cap else b


def explicit(rng, part):
    """an explicit structure for a prefix of the part"""
    n = rng.randint(1, len(part))
    kinds = rng.choice(["ip", "jq", "ipjq"])
    s = ""
    for i in range(n):
        if i and rng.random() < .15:
            s += "="
        s += "-" if part[i] == "-" else rng.choice(kinds)
    return s


def tail_tags(rng, cls):
    t = ""
    if cls in ("t",):
        if rng.random() < .5:
            t += "[T%s]" % rng.choice("t e k m n1 n2 n3 n4 n5".split())
        if rng.random() < .4:
            t += "[A%s]" % rng.choice("pi")
        if rng.random() < .5:
            t += "[P%s]" % rng.choice("1234")
        if rng.random() < .5:
            t += "[N%s]" % rng.choice("ym")
        if rng.random() < .3:
            t += "[E%s]" % rng.choice("tfb")
        if rng.random() < .2:
            t += "[R%s]" % rng.choice("vautme")
        if rng.random() < .2:
            t += "[I%s]" % rng.choice(["ra", "rm"])
    else:
        if rng.random() < .2:
            t += "[C%s]" % rng.choice("cs")
        if rng.random() < .8:
            t += "[S%s]" % rng.choice(CASES)
        if rng.random() < .7:
            t += "[N%s]" % rng.choice("ym")
        if rng.random() < .2:
            t += "[O%s]" % rng.choice(["1y", "2y", "1m", "2m", "3"])
    if rng.random() < .1:
        t += "[F%s]" % rng.choice(["kin", "kaan", "ko"])
    return t


def part(rng, w, first, last):
    cls = rng.choice(CLASSES + ["n"] * 8 + ["ep", "ep", "l", "nl"])
    o = "[L%s]" % cls
    if rng.random() < .08:
        o += "[I%s]" % rng.choice(["vj", "ca", "sf", "cu", "on", "ps", "pu"])
    if rng.random() < .06:
        o += "[D%s]" % rng.choice("eg")
    if rng.random() < .12 and not w.startswith("-"):
        o += section(rng, "r", explicit(rng, w))
    if rng.random() < .75:
        o += section(rng, "p", base(rng, w, cls[0] == "e"))
    if rng.random() < .1 and cls not in ("u", "ur"):
        o += section(rng, "s", str(rng.randint(100, 999)))
    cut = rng.randint(0, len(w))
    inner = ""
    if rng.random() < .15:
        inner = "[L%s]" % rng.choice(["n", "l", "s"]) + (section(rng, "j", rng.choice(["nen", "us", "ja", "inen"])) if rng.random() < .7 else "")
    elif rng.random() < .08:
        inner = "[R%s]" % rng.choice("vautme")
    o += w[:cut] + inner
    t = tail_tags(rng, cls)
    if rng.random() < .5:
        o += t + w[cut:]
    else:
        o += w[cut:] + t
    return o


def output(rng, w):
    """A random output for word w: parts separated at hyphens and at random places"""
    cuts = sorted({i + 1 for i, c in enumerate(w[:-1]) if c == "-" and i > 0} | {i for i in range(1, len(w)) if rng.random() < .2})
    parts, a = [], 0
    for c in cuts + [len(w)]:
        if c > a:
            parts.append(w[a:c])
        a = c
    numeral = False
    o = ""
    if parts[0].startswith("-") and len(parts[0]) > 1:
        o = "-[Bc]"
        parts[0] = parts[0][1:]
    for i, p in enumerate(parts):
        x = part(rng, p, i == 0, i == len(parts) - 1)
        numeral = numeral or x.startswith("[Lu]")
        while numeral and "[Xs]" in x:      # numerals have no word ids
            x = part(rng, p, i == 0, i == len(parts) - 1)
        if i:
            r = rng.random()
            # [Bc] closes a part when at least three more characters of output follow
            o += "[Bh][Bc]" if r < .6 else "[Bc]" if r < .8 else "[Bm]" if r < .9 else "[Bh]"
        o += x
    return o


def word(rng, alphabet, n):
    while True:
        w = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, n)))
        if w.strip("-") and "--" not in w:
            return w


def lexicon(rng, count, alphabet="aaeiskto\u00e4", n=7, outs=3):
    lex = {}
    while len(lex) < count:
        w = word(rng, alphabet + "-" * (1 if rng.random() < .3 else 0), n)
        lex[w] = [output(rng, w) for _ in range(rng.randint(1, outs))]
    return lex
