"""Small wrapper over the built library for the demonstrations (copied beside each of them)."""
import ctypes, os, shutil, subprocess, sys, tempfile, atexit
from pathlib import Path
B = "/repo/_build/libvoikko/src"
lib = ctypes.CDLL(B + "/.libs/libvoikko.so.1")
STD = "/repo/_build/inst-debian/standard"
W, S, P, I = ctypes.c_wchar_p, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_int
N = ctypes.c_size_t
for n, r, a in [("voikkoInit", P, [ctypes.POINTER(S), S, S]), ("voikkoTerminate", None, [P]), ("voikkoSetBooleanOption", I, [P, I, I]),
                ("voikkoSetIntegerOption", I, [P, I, I]), ("voikkoSpellUcs4", I, [P, W]), ("voikkoSpellCstr", I, [P, S]),
                ("voikkoSuggestUcs4", ctypes.POINTER(W), [P, W]), ("voikkoHyphenateUcs4", P, [P, W]), ("voikkoInsertHyphensCstr", P, [P, S, S, I]),
                ("voikkoAnalyzeWordUcs4", ctypes.POINTER(P), [P, W]), ("voikko_mor_analysis_keys", ctypes.POINTER(S), [P]),
                ("voikko_mor_analysis_value_ucs4", W, [P, S]), ("voikkoNextTokenUcs4", I, [P, W, N, ctypes.POINTER(N)]),
                ("voikkoNextTokenCstr", I, [P, S, N, ctypes.POINTER(N)]), ("voikkoNextSentenceStartUcs4", I, [P, W, N, ctypes.POINTER(N)]),
                ("voikkoNextSentenceStartCstr", I, [P, S, N, ctypes.POINTER(N)]), ("voikkoNextGrammarErrorUcs4", P, [P, W, N, N, I]),
                ("voikkoNextGrammarErrorCstr", P, [P, S, N, N, I]), ("voikkoGetGrammarErrorCode", I, [P]), ("voikkoGetGrammarErrorStartPos", N, [P]),
                ("voikkoGetGrammarErrorLength", N, [P]), ("voikkoGetGrammarErrorSuggestions", ctypes.POINTER(S), [P])]:
    f = getattr(lib, n)
    f.restype, f.argtypes = r, a
_tmp = tempfile.mkdtemp(prefix="vp-demo-")
atexit.register(shutil.rmtree, _tmp, True)


def build_vfst(path, att, *args):
    subprocess.run([B + "/tools/voikkovfstc", "-o", str(path), *args], input=att.encode(), check=True, stdout=subprocess.DEVNULL)


def symbols(o):
    r, i = [], 0
    while i < len(o):
        j = o.index("]", i) + 1 if o[i] == "[" else i + 1
        r.append(o[i:j])
        i = j
    return r


def att(entries):
    """one chain of states per (word, output)"""
    n, lines = 1, {0: []}
    for w, o in entries:
        o, w = symbols(o), list(w)
        k = max(len(o), len(w))
        s = 0
        for a, b in zip(w + ["@0@"] * (k - len(w)), o + ["@0@"] * (k - len(o))):
            lines.setdefault(s, []).append("%d\t%d\t%s\t%s" % (s, n, a if a != " " else "@_SPACE_@", b if b != " " else "@_SPACE_@"))
            s = n
            lines.setdefault(s, [])
            n += 1
        lines[s].append("%d" % s)
    return "".join(l + "\n" for s in sorted(lines) for l in lines[s])


def dictionary(entries, name="test", index="Morphology-Backend: finnishVfst\n", lang="fi", auto=(("joten kuten", "jotenkuten"),)):
    """Finnish dictionary from (word, output) pairs; returns the path to give to voikkoInit"""
    d = Path(_tmp) / "d" / "5" / ("mor-" + name)
    d.mkdir(parents=True)
    (d / "index.txt").write_text("Voikko-Dictionary-Format: 5\nLanguage: %s\nDescription: %s\n%s" % (lang, name, index))
    build_vfst(d / "mor.vfst", att(entries))
    build_vfst(d / "autocorr.vfst", att(auto))
    return str(Path(_tmp) / "d")


def init(path=STD, lang="fi"):
    e = S()
    h = lib.voikkoInit(ctypes.byref(e), lang.encode(), path.encode())
    assert h, e.value
    return h


def setb(h, k, v): return lib.voikkoSetBooleanOption(h, k, v)
def seti(h, k, v): return lib.voikkoSetIntegerOption(h, k, v)
def spell(h, w): return lib.voikkoSpellUcs4(h, w)
def hyph(h, w): return ctypes.cast(lib.voikkoHyphenateUcs4(h, w), S).value.decode()


def insh(h, w, sep, ctx):
    r = lib.voikkoInsertHyphensCstr(h, w.encode(), sep.encode(), ctx)
    return ctypes.cast(r, S).value.decode() if r else None


def sugg(h, w):
    r, p, i = [], lib.voikkoSuggestUcs4(h, w), 0
    while p and p[i] is not None:
        r.append(p[i])
        i += 1
    return r


def ana(h, w):
    r, p, i = [], lib.voikkoAnalyzeWordUcs4(h, w), 0
    while p and p[i]:
        ks, j, a = lib.voikko_mor_analysis_keys(p[i]), 0, {}
        while ks[j]:
            a[ks[j].decode()] = lib.voikko_mor_analysis_value_ucs4(p[i], ks[j])
            j += 1
        r.append(a)
        i += 1
    return r


def _seq(f, h, t, k, utf8):
    r, n = [], N()
    while True:
        a = t.encode() if utf8 else t
        x = f(h, a, len(a), ctypes.byref(n))
        r.append((x, t[:n.value]))
        if x == 0 or n.value == 0:
            return r
        t = t[n.value:]


def tokens(h, t, utf8=False): return _seq(lib.voikkoNextTokenCstr if utf8 else lib.voikkoNextTokenUcs4, h, t, 0, utf8)
def sentences(h, t, utf8=False): return _seq(lib.voikkoNextSentenceStartCstr if utf8 else lib.voikkoNextSentenceStartUcs4, h, t, 0, utf8)


def gram(h, t, start=0, skip=0, utf8=False):
    a = t.encode() if utf8 else t
    e = (lib.voikkoNextGrammarErrorCstr if utf8 else lib.voikkoNextGrammarErrorUcs4)(h, a, len(a), start, skip)
    if not e:
        return None
    s, l, i = lib.voikkoGetGrammarErrorSuggestions(e), [], 0
    while s and s[i] is not None:
        l.append(s[i].decode())
        i += 1
    return (lib.voikkoGetGrammarErrorCode(e), lib.voikkoGetGrammarErrorStartPos(e), lib.voikkoGetGrammarErrorLength(e), l)


def gramall(h, t, start=0):
    r = []
    while True:
        e = gram(h, t, start, len(r))
        if e is None:
            return r
        r.append(e)


def expect(got, want, what=""):
    if got != want:
        print("FAILED: %s: got %r, expected %r" % (what, got, want))
        sys.exit(1)
