"""Conformance machinery: command scripts -> driver (real code) -> recorded events -> TLC (Trace.tla).

A Session is a self-contained history of API calls in one driver process.  Each call is a command line for the
driver plus the event fields the specification sees; the driver's answer is added to the event.  TLC decides
whether the recorded history is a behaviour of the specification.
"""
import json, math, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_CP = os.environ.get("TLA_CP", "")

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=98"


class ModelError(Exception):
    """The specification or the machinery failed: an error of the check, not a finding."""


def cps(s):
    """Text as code points."""
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


def txt(l):
    return " ".join(str(x) for x in l)


def show(l):
    return "".join(chr(x) if 0 <= x < 0x110000 and not 0xD800 <= x < 0xE000 else "\\x{%x}" % x for x in l)


class Session:
    def __init__(self, name="s", env=None):
        self.name, self.env, self.cwd = name, env or {}, None
        self.calls = []      # (command line, event)

    def call(self, cmd, **event):
        self.calls.append((cmd, event))

    # --- the API ---
    def open(self, dic, lang, path, h=0):
        self.call("init\t%d\t%s\t%s" % (h, lang, path), op="open", h=h, d=dic)

    def term(self, h=0):
        self.call("term\t%d" % h, op="term", h=h)

    def setb(self, opt, val, h=0):
        self.call("setb\t%d\t%d\t%d" % (h, opt, val), op="setb", h=h, k=opt, v=val)

    def seti(self, opt, val, h=0):
        self.call("seti\t%d\t%d\t%d" % (h, opt, val), op="seti", h=h, k=opt, v=val)

    def word(self, op, w, h=0, bytes_=False, **kw):
        """op: spell, sugg, hyph, ana"""
        w = cps(w)
        kw["op"] = kw.pop("as_", op + ("C" if bytes_ else ""))
        self.call("%s%s\t%d\t%s" % (op, "C" if bytes_ else "U", h, txt(w)), h=h, t=w, **kw)

    def text(self, op, t, h=0, mode="z", bytes_=False, **kw):
        """op: tok, sent (whole text), tok1, sent1"""
        t = cps(t)
        self.call("%s%s\t%d\t%s\t%s" % (op, "C" if bytes_ else "U", h, mode, txt(t)), op=op + ("C" if bytes_ else ""), h=h, t=t, m=mode, **kw)

    def gramall(self, t, h=0, mode="z", startpos=0, bytes_=False):
        t = cps(t)
        self.call("gramAll%s\t%d\t%s\t%s\t%d" % ("C" if bytes_ else "U", h, mode, txt(t), startpos), op="gramall" + ("C" if bytes_ else ""), h=h, t=t, m=mode, s=startpos)

    def gram(self, t, startpos, skip, h=0, mode="z", bytes_=False):
        t = cps(t)
        self.call("gram%s\t%d\t%s\t%s\t%d\t%d" % ("C" if bytes_ else "U", h, mode, txt(t), startpos, skip), op="gram" + ("C" if bytes_ else ""), h=h, t=t, m=mode, s=startpos, k=skip)

    def attr(self, name, h=0):
        self.call("attr\t%d\t%s" % (h, name), op="attr", h=h, k=name)

    def insh(self, w, hy, ctx, h=0):
        w, hy = list(w), list(hy)
        self.call("insh\t%d\t%s\t%s\t%d" % (h, txt(w), txt(hy), ctx), op="insh", h=h, t=w, y=hy, c=ctx)


def run_driver(driver, calls, env=None, timeout=300, cwd=None):
    """Runs commands; returns (answers, None) or (answers so far, description of the crash)."""
    e = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C.UTF-8", "HOME": "/nonexistent", "ASAN_OPTIONS": ASAN, "UBSAN_OPTIONS": UBSAN}
    e.update(env or {})
    data = "".join(c + "\n" for c, _ in calls)
    try:
        p = subprocess.run([str(x) for x in (driver if isinstance(driver, (list, tuple)) else [driver])], input=data.encode("utf-8", "surrogateescape"), capture_output=True, env=e, timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf-8", "replace").splitlines()
        return out, "no answer within %d s (call does not terminate)" % timeout
    out = p.stdout.decode("utf-8", "surrogateescape").splitlines()
    if p.returncode == 97:
        raise ModelError("driver: " + p.stderr.decode(errors="replace"))
    if p.returncode != 0 or len(out) != sum(1 for c, _ in calls if c.split("\t")[0] not in ("par", "endpar")):
        return out, "process ended with status %d after %d of %d calls\n%s" % (p.returncode, len(out), len(calls), p.stderr.decode(errors="replace")[-3000:])
    return out, None


TEXT_ATTRS = {"STRUCTURE": "st", "BASEFORM": "bf", "WORDBASES": "wb", "WORDIDS": "wi"}
NONE = [0]          # absent text attribute


def items(cp):
    """An output of the lexicon as the specification sees it: tags and characters"""
    r, i = [], 0
    while i < len(cp):
        if cp[i] == ord("["):
            j = cp.index(ord("]"), i) if ord("]") in cp[i:] else len(cp) - 1
            r.append({"t": "".join(map(chr, cp[i + 1:j])), "c": 0})
            i = j + 1
        else:
            r.append({"t": "", "c": cp[i]})
            i += 1
    return r


def analysis(a):
    r = {"at": {}, "st": NONE, "bf": NONE, "out": [], "wb": NONE, "wi": NONE}
    for k, v in a.items():
        if k in TEXT_ATTRS:
            r[TEXT_ATTRS[k]] = v
        elif k == "FSTOUTPUT":
            r["out"] = items(v)
        else:
            r["at"][k] = show(v)
    return r


def norm(op, v):
    """JSON answer -> event fields: null is n=1 with an empty sequence"""
    if v is None:
        return {"n": 1, "r": []}
    if isinstance(v, dict) and "exc" in v:      # an exception of a language binding
        return {"n": 2 if v["exc"] == "VoikkoException" else 3, "r": [], "exc": v["exc"]}
    if op == "anaC":
        v = [{k: cps(bytes(x).decode("utf-8")) for k, x in a.items()} for a in v]
    if op in ("ana", "anaC", "anaset", "bana", "voc"):
        v = [analysis(a) for a in v]
    if op in ("anaw", "anacut", "anabag"):
        v = [{"out": items(a.get("FSTOUTPUT", [])), "wt": round(-100 * math.log(float(show(a["WEIGHT"])))) if "WEIGHT" in a else 0} for a in v]
    return {"n": 0, "r": v}


def record(driver, session, timeout=300):
    """Returns the event list of a session run against the real code (a crash becomes a final 'crash' event)."""
    out, crash = run_driver(driver, session.calls, session.env, timeout, session.cwd)
    evs = []
    real = [(c, e) for c, e in session.calls if c.split("\t")[0] not in ("par", "endpar")]
    for i, (c, e) in enumerate(real):
        if i < len(out):
            ev = dict(e)
            try:
                ev.update(norm(e.get("op"), json.loads(out[i])))
            except ValueError:
                raise ModelError("driver answer is not JSON: %r" % out[i][:200])
            evs.append(ev)
        else:
            evs.append({"op": "crash", "h": 0, "of": e.get("op", ""), "cmd": c[:500], "n": 0, "r": [], "why": (crash or "")[-2500:]})
            break
    else:
        if crash:
            evs.append({"op": "crash", "h": 0, "of": "exit", "n": 0, "r": [], "cmd": "", "why": crash[-2500:]})
    return evs


def tlc(module, cfg, env=None, cwd=None, workers=1, heap="3g", timeout=800, extra=()):
    """Runs TLC on spec/<module>.tla with a cfg text; returns (exit, output)."""
    d = tempfile.mkdtemp(prefix="vp-tlc-")
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, d)
        Path(d, module + ".cfg").write_text(cfg)
        cp = JAR
        cm = Path("/opt/veriftools/tla")
        for j in sorted(cm.glob("*.jar")):
            if str(j) != JAR:
                cp += ":" + str(j)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers),
               "-metadir", d + "/meta", "-noGenerateSpecTE", *extra, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelError("TLC did not finish within %d s on %s" % (timeout, module))
        return p.returncode, p.stdout + p.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def check_events(events, dicts_file, timeout=800, module="Trace", env=None, cfg=TRACE_CFG, stats=None):
    """TLC on one recorded history.  Returns None if it is a behaviour of the specification, else
    (index of the first rejected event, text that TLC printed for it).  Raises ModelError on TLC failure."""
    d = tempfile.mkdtemp(prefix="vp-ev-")
    try:
        f = Path(d, "events.ndjson")
        with open(f, "w") as o:
            for e in events:
                o.write(json.dumps(e, ensure_ascii=True) + "\n")
        en = {"EVENTS": str(f), "DICTS": str(dicts_file)}
        en.update(env or {})
        rc, out = tlc(module, cfg, env=en, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if stats is not None:
        g = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        if g:
            stats.transitions += int(g[-1][0].replace(",", ""))
            stats.states += int(g[-1][1].replace(",", ""))
    if rc == 0 and "No error has been found" in out:
        return None
    m = re.search(r'ACCEPTED-EVENTS\D+(\d+)', out)
    if "TraceAccepted" in out and m and "Error: Evaluating" not in out and "Exception" not in out.replace("PostCondition", ""):
        at = int(m.group(1))
        mm = re.findall(r'<<\s*"MISMATCH".*?>>\s*\n(?=\S)', out + "\nX", re.S)
        return at, (mm[-1].strip() if mm else "no action of the specification allows this event")
    err = "\n".join(x[:1500] for x in re.findall(r"Error: .*?(?=\n/\\\\|\nThe behavior|\nError:|$)", out, re.S)[:3])
    raise ModelError("TLC failed (exit %s):\n%s\n...\n%s" % (rc, err, "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))[-6000:]))


def pmap(f, items, jobs=8):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, items))
