"""The inflection module (tools/pylib/voikkoinfl.py) driven by commands, one per line, with the answers as JSON.
Argument: directory of the module."""
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import io
real, sys.stdout = sys.stdout, io.StringIO()     # the module may print
import voikkoutils
try:
    import voikkoinfl
except ImportError:
    pass         # the copy of voikkoutils in voikko-fi

T = {}
VT = {"": voikkoutils.VOWEL_DEFAULT, "front": voikkoutils.VOWEL_FRONT, "back": voikkoutils.VOWEL_BACK, "both": voikkoutils.VOWEL_BOTH}
NAME = {v: k for k, v in VT.items()}
GR = {voikkoutils.GRAD_NONE: "none", voikkoutils.GRAD_SW: "sw", voikkoutils.GRAD_WS: "ws"}


def text(s):
    return "".join(chr(int(x)) for x in s.split())


def out(s):
    return [ord(c) for c in s]


def run(a):
    if a[0] == "types":
        T[a[1]] = voikkoinfl.readInflectionTypes(a[2])
        return [dict(sm=t.joukahainenClasses, kotus=t.kotusClasses, rm=len(t.rmsfx), grad=GR[t.gradation], note=out(t.note),
                     rules=[[r.name, 1 if r.isCharacteristic else 0, r.rulePriority] for r in t.inflectionRules]) for t in T[a[1]]]
    if a[0] == "infl":
        kw = {} if a[4] == "" else {"vowel_type": VT[a[4]]}
        return [dict(name=w.formName, ch=1 if w.isCharacteristic else 0, prio=w.priority, w=out(w.inflectedWord))
                for w in voikkoinfl.inflectWord(text(a[2]), a[3], T[a[1]], **kw)]
    if a[0] == "kotus":
        return T[a[1]][int(a[2]) - 1].kotusGradClass(text(a[3]), a[4])
    if a[0] == "harm":
        return NAME[voikkoutils.get_wordform_infl_vowel_type(text(a[1]))]
    if a[0] == "harm1":
        return NAME[voikkoutils.vowel_type(text(a[1]))]
    raise SystemExit(97)


for line in sys.stdin:
    try:
        r = run(line.rstrip("\n").split("\t"))
    except Exception as x:
        r = {"exc": type(x).__name__}
    real.write(json.dumps(r) + "\n")
    real.flush()
