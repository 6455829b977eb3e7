"""Spellers in the ZHFST format: transducers in HFST's optimized lookup format (weighted), in a zip archive with metadata."""
import struct, zipfile
from xml.sax.saxutils import escape
from pathlib import Path

EPS = "@_EPSILON_SYMBOL_@"
NONE = 0xFFFF
NOWHERE = 0xFFFFFFFF
TARGET = 0x80000000


def bits(w):
    return struct.unpack("<I", struct.pack("<f", w))[0]


def ol(states, alphabet):
    """states: list of (final weight or None, [(input, output, target, weight)]); state 0 is the start.  Every state
    has a place of its own in the table of indices."""
    syms = [EPS] + list(alphabet)
    num = {s: i for i, s in enumerate(syms)}
    num[""] = 0
    width = len(syms) + 1
    first, table, index, at = {}, b"", b"", 0
    for i, (f, ts) in enumerate(states):
        table += struct.pack("<HHIf", NONE, NONE, NOWHERE, 0.0)
        at += 1
        for a, b, t, w in sorted(ts, key=lambda t: num[t[0]]):
            first.setdefault((i, num[a]), at)
            table += struct.pack("<HHIf", num[a], num[b], width * t, w)
            at += 1
        index += struct.pack("<HI", NONE, NOWHERE if f is None else bits(f))
        for n in range(len(syms)):
            index += struct.pack("<HI", n, TARGET + first[i, n]) if (i, n) in first else struct.pack("<HI", NONE, NOWHERE)
    table += struct.pack("<HHIf", NONE, NONE, NOWHERE, 0.0)
    total = at + 1
    index += struct.pack("<HI", NONE, NOWHERE)
    props = b"version\0003.3\0type\0HFST_OLW\0name\0x\0"
    head = b"HFST\0" + struct.pack("<H", len(props)) + b"\0" + props
    head += struct.pack("<HHIIII", len(syms), len(syms), width * len(states) + 1, total, len(states), sum(len(t) for _, t in states))
    eps = any(not t[0] for _, ts in states for t in ts)
    head += struct.pack("<9I", 1, 0, 0, 0, 0, 0, int(eps), 0, 0)
    return head + b"".join(s.encode() + b"\0" for s in syms) + index + table


def trie(lex):
    """The acceptor of weighted words"""
    states, to = [[None, {}]], {}
    for w in sorted(lex):
        q = 0
        for c in w:
            if c not in states[q][1]:
                states.append([None, {}])
                states[q][1][c] = len(states) - 1
            q = states[q][1][c]
        states[q][0] = float(lex[w])
    return [(f, [(c, c, t, 0.0) for c, t in d.items()]) for f, d in states]


def edits(chars, rules, k=1):
    """The error model of at most k edits: rules are (from, to, weight) of strings"""
    states = [(0.0, [(c, c, q, 0.0) for c in chars]) for q in range(k + 1)]
    for q in range(k):
        for a, b, w in rules:
            n = max(len(a), len(b), 1)
            at = q
            for i in range(n):
                to = q + 1
                if i < n - 1:
                    to = len(states)
                    states.append((None, []))
                states[at][1].append((a[i:i + 1], b[i:i + 1], to, float(w) if i == 0 else 0.0))
                at = to
    return states


INDEX = """<?xml version="1.0" encoding="UTF-8"?>
<hfstspeller dtdversion="1.0" hfstversion="3"><info><locale>%s</locale><title>%s</title><description>d</description>
<version vcsrev="1">1</version><date>2026-01-01</date><producer>p</producer><contact email="a" website="b"/></info>
<acceptor type="general" id="acceptor.default.hfst"><title>t</title><description>d</description></acceptor>
<errmodel id="errmodel.default.hfst"><title>t</title><description>d</description><type type="default"/><model>errormodel.default.hfst</model></errmodel>
</hfstspeller>
"""


def write(path, lang, title, acceptor, errmodel):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("index.xml", INDEX % (escape(lang), escape(title)))
        z.writestr("acceptor.default.hfst", acceptor)
        if errmodel is not None:
            z.writestr("errmodel.default.hfst", errmodel)
