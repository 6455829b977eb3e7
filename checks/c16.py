"""C16: the command line tools.  Each run of a real tool (arguments, input lines, everything it printed) is compared with
what the specification says for each line.  Ring.tla models the threads of voikkospell; the orders in which its workers can
finish are forced upon the real program."""
import json, os, random, re, subprocess
import conform, dicts, lexgen, vbuild, words, work, c11
from conform import Session

TOOLS = ("spell", "hyphenate", "gc")
A = re.compile(rb"^A\((.*)\):(\d+):([A-Z_]+)=(.*)$", re.S)
BLOCK = 500


def arg(a, n=0, c=0, text=None):
    return dict(a=a, n=n, c=c, text=text)


def parse(out):
    """Lines of the output, with the lines of analyses put together by word"""
    if out and not out.endswith(b"\n"):
        out += b"<no newline at the end>\n"
    res, cur = [], None
    for l in out.split(b"\n")[:-1]:
        m = A.match(l)
        try:
            m = m and (m[1].decode(), int(m[2]), m[3].decode(), m[4].decode())
        except UnicodeDecodeError:
            m = None
        if m:
            w, i, k, v = m
            if cur and cur[0] == w and i == len(cur[1]) and k not in cur[1][-1]:
                pass
            elif cur and cur[0] == w and i == len(cur[1]) + 1:
                cur[1].append({})
            elif i == 1:
                cur = (w, [{}])
                res.append(cur)
            else:
                cur, m = None, None
            if m:
                cur[1][-1][k] = [ord(c) for c in v]
                continue
        cur = None
        res.append(l)
    return [dict(k="line", s=list(x), w=[], l=[]) if isinstance(x, bytes) else
            dict(k="ana", s=[], w=[ord(c) for c in x[0]], l=[conform.analysis(a) for a in x[1]]) for x in res]


def table(xs, key):
    ids, tab, seq = {}, [], []
    for x in xs:
        k = key(x)
        if k not in ids:
            tab.append(x)
            ids[k] = len(tab)
        seq.append(ids[k])
    return tab, seq


def run_tool(exe, root, run):
    cmd = [str(exe), "-p", str(root), "-d", run["lang"]]
    for a in run["args"]:
        cmd += a["text"] if a["text"] is not None else [a["a"]]
    e = {"PATH": os.environ["PATH"], "LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "ASAN_OPTIONS": conform.ASAN, "UBSAN_OPTIONS": conform.UBSAN,
         "TSAN_OPTIONS": "exitcode=66:halt_on_error=1", "SCHED": ",".join(map(str, run.get("sched", ())))}
    data = b"".join(l + b"\n" for l in run["lines"])
    if run.get("cut") and data:
        data = data[:-1]
    base = dict(op="tool", h=0, n=0, tool=run["tool"], d=run["d"], args=[{k: v for k, v in a.items() if k != "text"} for a in run["args"]])
    for limit in (120, 300):
        try:
            p = subprocess.run(cmd, input=data, capture_output=True, env=e, timeout=limit)
            break
        except subprocess.TimeoutExpired:
            p = None
    if p is None or p.returncode not in (0, 1):
        return dict(op="crash", h=0, of="tool", n=0, r=[], cmd=" ".join(cmd), sched=list(run.get("sched", ())), lines=len(run["lines"]),
                    why="does not end" if p is None else "ended with status %d\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-2500:]))
    tab, seq = table(run["lines"], lambda x: x)
    items, out = table(parse(p.stdout), lambda x: json.dumps(x, sort_keys=True))
    base.update(table=[list(x) for x in tab], lines=seq, items=items, out=out, r=p.returncode, cmd=" ".join(cmd), sched=list(run.get("sched", ())))
    return base


def bad_line(rng):
    """Lines that are not answered: empty, not UTF-8, too long"""
    k = rng.randrange(5)
    if k == 0:
        return b""
    if k == 1:
        return b"ko" + rng.choice([b"\x80", b"\xff", b"\xc3", b"\xc0\xaf", b"\xe2\x82", b"\xc3(", b"\xe0\x80\xaf"]) + rng.choice([b"", b"ira"])
    if k == 2:
        return b"a" * rng.choice([256, 257, 300, 2000])
    if k == 3:
        return "ä".encode() * rng.choice([256, 1000])
    return rng.choice([b"a" * 254, b"a" * 255, "ä".encode() * 255, b" ", b"."])


def spell_args(rng, names):
    a = []
    for _ in range(rng.randint(0, 3)):
        o, v = rng.choice(names), rng.randint(0, 1)
        a.append(arg(o, v, text=["%s=%d" % (o, v)]))
    if rng.random() < .4:
        a.append(arg("-s"))
    if rng.random() < .25:
        a.append(arg("-m"))
    k = rng.random()
    if k < .15:
        a.append(arg("-t"))
    elif k < .3:
        a.append(arg("-tt"))
    elif k < .4:
        a.append(arg("-M"))
    elif k < .55:
        c = rng.choice(["", "", ":", "/", " ", "\t"])
        a.append(arg("-x", c=ord(c) if c else 0, text=["-x" + c]))
    if rng.random() < .4:
        n = rng.choice([-1, 0, 1, 2, 5])
        a.append(arg("-c", n, text=["-c%d" % n]))
    rng.shuffle(a)
    return a


SPELL_OPTS = ["ignore_dot", "ignore_numbers", "ignore_nonwords", "accept_first_uppercase", "accept_all_uppercase", "accept_extra_hyphens",
              "accept_missing_hyphens", "ocr_suggestions"]


def threads(n):
    return arg("-j", n, text=["-j", str(n)])


def hyph_args(rng):
    a = []
    for _ in range(rng.randint(0, 3)):
        o, v = rng.choice(["ignore_dot", "no_ugly_hyphenation", "hyphenate_unknown_words"]), rng.randint(0, 1)
        a.append(arg(o, v, text=["%s=%d" % (o, v)]))
    if rng.random() < .4:
        n = rng.choice([-3, 0, 1, 2, 3, 4, 6, 9, 40])
        a.append(arg("min_hyphenated_word_length", n, text=["min_hyphenated_word_length=%d" % n]))
    if rng.random() < .4:
        c = rng.choice("-=+ |_a")
        a.append(arg("-s", c=ord(c), text=["-s" + c]))
    rng.shuffle(a)
    return a


def gc_args(rng):
    a = []
    k = rng.random()
    if k < .25:
        a.append(arg("--tokenize"))
    elif k < .5:
        a.append(arg("--split-sentences"))
    for _ in range(rng.randint(0, 2)):
        o, v = rng.choice(["accept_titles", "accept_unfinished_paragraphs", "accept_bulleted_lists"]), rng.randint(0, 1)
        a.append(arg(o, v, text=["%s=%d" % (o, v)]))
    if rng.random() < .4:
        a.append(arg("-n"))
    if rng.random() < .3:
        l = rng.choice(["fi", "en", "sv"])
        a.append(arg("explanation_language", text=["explanation_language=" + l]))
    rng.shuffle(a)
    return a


def wrong_args(rng, tool):
    return rng.choice([[arg("-Q")], [arg("ignore_dot=2" if tool != "gc" else "accept_titles=2")], [arg("bogus=1")], [arg("")]]
                      + ([[arg("-j", n, text=["-j", str(n)])] for n in (0, -1, 201, 100000)] + [[arg("-j", 0, text=["-j"])]] if tool == "spell" else [])
                      + ([[arg("-s", text=["-s"])], [arg("-s", text=["-sab"])]] if tool == "hyphenate" else []))


def orders(ctx):
    """Ring.tla: all histories for small rings; the orders in which the workers finish"""
    def one(tb):
            t, b = tb
            cfg = "SPECIFICATION Spec\nCONSTANTS Threads = %d Blocks = %d\nINVARIANT InOrder JoinsWorkers NothingLost Dump\nPROPERTY Ends\n" % (t, b)
            out = ctx.model("Ring", cfg, workers=1, heap="1g", what="the blocks of voikkospell with %d threads, %d blocks" % (t, b))
            return tb, sorted({tuple(int(x) for x in m[2].split(",") if x.strip()) for m in re.finditer(r'<<"ORDER", (\d+), <<([\d, ]*)>>>>', out)})
    return dict(conform.pmap(one, [(t, b) for t in range(1, ctx.n(4, 5)) for b in range(0, t + ctx.n(3, 4))], 8))


def check(ctx):
    rng = ctx.rng
    b = ctx.scratch / "tools"
    b.mkdir()
    exe = {("asan", t): vbuild.build_tool(b, "voikko" + t, extra=("sched.cpp",)) for t in TOOLS}
    b2 = ctx.scratch / "tools-tsan"
    b2.mkdir()
    exe["tsan", "spell"] = vbuild.build_tool(b2, "voikkospell", "tsan", extra=("sched.cpp",))
    ds = c11.make_dicts(rng, 2) + [dicts.FinnishDict("core", words.core_lexicon(rng, 60)), dicts.FinnishDict("rand", lexgen.lexicon(rng, 80))]
    root = ctx.write_dicts(ds)
    runs = []

    def add(tool, d, args, lines, flavour="asan", **kw):
        runs.append(dict(tool=tool, d=d.name if d else "", lang=d.lang if d else "fi-x-nothing", args=args, lines=lines, flavour=flavour, **kw))

    def wordlist(d, n):
        ws = list(d.lex)
        l = []
        for _ in range(n):
            w = words.word(rng, ws) if rng.random() < .8 else work.mutate(rng, rng.choice(ws))
            w = w.replace("\n", "").replace("\0", "")
            l.append(w.encode("utf-8", "replace") if rng.random() < .9 else bad_line(rng))
        return l

    for d in ds:
        ws = list(d.lex)
        for _ in range(ctx.n(14, 150)):
            args = spell_args(rng, SPELL_OPTS)
            if rng.random() < .5:
                args.append(threads(rng.choice([1, 2, 3, 5, 8])))
            add("spell", d, args, wordlist(d, rng.choice([0, 1, 2, 20, 60])), cut=rng.random() < .2)
        for _ in range(ctx.n(8, 100)):
            add("hyphenate", d, hyph_args(rng), wordlist(d, rng.choice([0, 1, 3, 60])), cut=rng.random() < .2)
        for _ in range(ctx.n(10, 100)):
            ls = []
            for _ in range(rng.choice([0, 1, 4, 25])):
                k = rng.random()
                t = c11.paragraph(rng, ws) if k < .8 else work.text(rng, rng.randint(1, 25))
                t = t.replace("\n", " ").replace("\0", "")
                ls.append(t.encode("utf-8", "replace") if rng.random() < .9 else rng.choice([b"", b"\xff", b"Koira \xc3", bad_line(rng)[:60]]))
            add("gc", d, gc_args(rng), ls, cut=rng.random() < .2)
    # words in many blocks: few different ones, so that every line is soon decided, around the borders of blocks
    d = ds[2]
    few = wordlist(d, 25) + [b"", b"a" * 256, b"\xff"]

    def stream(n):
        l = []
        while n > 0:
            x = rng.choice(few)
            l.append(x)
            n -= bool(x) and x != b"\xff" and x != b"a" * 256
        return l
    for (t, k), os_ in sorted(orders(ctx).items()):
        for o in rng.sample(os_, min(len(os_), ctx.n(2, 30))):
            n = max(0, BLOCK * k - rng.choice([0, 1, 499, rng.randint(0, 499)])) if k else 0
            add("spell", d, spell_args(rng, SPELL_OPTS)[:2] + [threads(t)], stream(n), sched=o, flavour=rng.choice(["asan", "tsan"]))
    for t in ctx.n([4, 8, 40], [4, 7, 16, 100, 200]):
        for n in (0, 1, BLOCK * t - 1, BLOCK * t, BLOCK * t + 1) if t < 40 else (3, BLOCK * 3 + 1):
            o = list(range(1, n // BLOCK + 2))
            rng.shuffle(o)
            add("spell", d, [threads(t)] + ([arg("-s")] if rng.random() < .5 else []), stream(n), sched=o[:12], flavour=rng.choice(["asan", "tsan"]))
    # paragraphs at the limit of length
    for n in (6000, 100001):
        add("gc", ds[0], [arg("--tokenize")], [b" " * n, b"koira"])
    for tool in TOOLS:
        for _ in range(ctx.n(6, 30)):
            add(tool, ds[0], wrong_args(rng, tool), [b"koira"])
        add(tool, None, [], [b"koira"])
    sessions = []
    for r in runs:
        s = Session(r["tool"])
        s.run, s.uses = r, ({r["d"]} if r["d"] else set())
        sessions.append(s)

    def rec(s):
        return [run_tool(exe[s.run["flavour"], s.run["tool"]], root, s.run)]
    ctx.validate(sessions, root, recorder=rec, jobs=8, chunk=24)
