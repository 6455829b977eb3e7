"""Transducer files in the format that libvoikko reads, written from the format's description (independently of
voikkovfstc), and the same transducers as JSON for the specification."""
import struct


class Fst:
    """States are numbered; state 0 is the start.  A transition is (input symbol, output symbol, target, weight);
    symbols are strings: "" epsilon, "@P.FEATURE.VALUE@" flag diacritics, one character, or "[..." multicharacter."""
    def __init__(self, weighted=False):
        self.tr = [[]]
        self.final = {}
        self.weighted = weighted
        self.extra_symbols = []     # symbols that occur in no transition

    def state(self):
        self.tr.append([])
        return len(self.tr) - 1

    def arc(self, s, i, o, t, w=0):
        self.tr[s].append((i, o, t, w))

    def accept(self, s, w=0):
        self.final[s] = w

    def symbols(self):
        used = {""} | set(self.extra_symbols)
        for l in self.tr:
            for i, o, _, _ in l:
                used |= {i, o}
        flags = sorted(x for x in used if x.startswith("@") and len(x) > 1)
        multi = sorted(x for x in used if len(x) > 1 and not (x.startswith("@")))
        single = sorted(x for x in used if len(x) == 1)
        assert all(m[0] == "[" for m in multi), multi
        return [""] + flags + single + multi

    def ordered(self, s, idx):
        """(symIn, symOut, target, weight) in file order: epsilon, final, the rest by input symbol"""
        FIN = None
        eps = [(0, idx[o], t, w) for i, o, t, w in self.tr[s] if i == ""]
        fin = [(FIN, 0, 0, self.final[s])] if s in self.final else []
        rest = sorted(((idx[i], idx[o], t, w) for i, o, t, w in self.tr[s] if i != ""), key=lambda x: x[0])
        return eps + fin + rest

    def write(self, path, big_endian=False, always_overflow=False):
        e = ">" if big_endian else "<"
        syms = self.symbols()
        idx = {s: i for i, s in enumerate(syms)}
        cell = 16 if self.weighted else 8
        out = bytearray(struct.pack(e + "II", 0x00013A6E, 0x000351FA))
        out += bytes([1 if self.weighted else 0]) + b"\0" * 7
        out += struct.pack(e + "H", len(syms))
        for s in syms:
            out += s.encode() + b"\0"
        while len(out) % cell:
            out += b"\0"
        # layout
        at, n = [], 0
        lists = [self.ordered(s, idx) for s in range(len(self.tr))]
        for l in lists:
            at.append(n)
            n += max(len(l), 1) + (1 if len(l) - 1 >= 255 else 0)
        for l in lists:
            if not l:   # dead state: one transition that can never match is not expressible, so a state without
                # transitions is written as a single transition on the unused symbol
                l = [(len(syms), 0, 0, 0)]
            more = len(l) - 1
            for k, (i, o, t, w) in enumerate(l):
                m = (255 if more >= 255 else more) if k == 0 else 0
                if self.weighted:
                    out += struct.pack(e + "IIIhBB", 0xFFFFFFFF if i is None else i, o, at[t] if i is not None else 0, w, m, 0)
                else:
                    tgt = at[t] if i is not None else 0
                    b = struct.pack(e + "I", tgt)
                    b3 = b[1:] if big_endian else b[:3]
                    out += struct.pack(e + "HH", 0xFFFF if i is None else i, o) + b3 + bytes([m])
                if k == 0 and more >= 255:
                    out += (struct.pack(e + "I", more) + b"\0" * (cell - 4))
        if path is None:
            return bytes(out)
        with open(path, "wb") as f:
            f.write(out)

    def json(self):
        """For the specification: transitions of each state (numbered from 1) in order."""
        syms = self.symbols()
        idx = {s: i for i, s in enumerate(syms)}
        cps = lambda s: [ord(c) for c in s]
        res = []
        for s in range(len(self.tr)):
            l = []
            for i, o, t, w in self.ordered(s, idx):
                r = dict(k="", c=0, o=[], to=t + 1, w=w, op="", f="", v="")
                if i is None:
                    r["k"] = "final"
                    r["to"] = 0
                else:
                    si, so = syms[i], syms[o]
                    r["o"] = [] if so == "" or (so.startswith("@") and len(so) > 1) else [dict(t=so[1:-1] if len(so) > 1 else "", c=0 if len(so) > 1 else ord(so))]
                    if si == "":
                        r["k"] = "eps"
                    elif si.startswith("@") and len(si) > 1:
                        p = si.strip("@").split(".")
                        r.update(k="flag", op=p[0], f=p[1], v=p[2] if len(p) > 2 else "")
                    elif len(si) == 1:
                        r.update(k="chr", c=ord(si))
                    else:
                        r.update(k="never")
                l.append(r)
            res.append(l)
        alphabet = [ord(s) for s in syms if len(s) == 1]
        return dict(t=res, alpha=alphabet, weighted=1 if self.weighted else 0)


    def size(self, word, limit=20000, results=99, outs=None):
        """(number of accepting paths, steps of the search), or None if there are too many; for the generators only.
        The outputs are added to the set outs."""
        syms = self.symbols()
        idx = {s: i for i, s in enumerate(syms)}
        rows = [self.ordered(s, idx) for s in range(len(self.tr))]
        n, steps = 0, 0
        stack = [(0, 0, {}, 0, "")]
        while stack:
            s, k, fl, depth, y = stack.pop()
            steps += 1
            if steps > limit or depth > 1500:
                return None
            todo = []
            for i, o, t, w in rows[s]:
                if i is None:
                    n += k == len(word)
                    if outs is not None and k == len(word):
                        outs.add(y)
                    if n > results:
                        return None
                    continue
                si = syms[i]
                if si == "":
                    todo.append((t, k, fl, depth + 1, y + syms[o] if outs is not None else y))
                elif len(si) > 1 and si[0] == "@":
                    g = flag(si, fl)
                    if g is not None:
                        todo.append((t, k, g, depth + 1, y + syms[o] if outs is not None else y))
                elif k < len(word) and si == word[k]:
                    todo.append((t, k + 1, fl, depth + 1, y + syms[o] if outs is not None else y))
            stack += todo[::-1]
        return n, steps


def flag(sym, fl):
    p = sym.strip("@").split(".")
    op, f, v = p[0], p[1], p[2] if len(p) > 2 else None
    cur = fl.get(f)
    if op == "P":
        return {**fl, f: v}
    if op == "C":
        g = dict(fl)
        g.pop(f, None)
        return g
    if op == "U":
        return {**fl, f: v} if cur in (None, v) else None
    if op == "R":
        return fl if (cur is not None if v is None else cur == v) else None
    if op == "D":
        return fl if (cur is None if v is None else cur != v) else None


def split_output(o):
    """'[Ln]koira' -> ['[Ln]', 'k', 'o', ...]"""
    r, i = [], 0
    while i < len(o):
        if o[i] == "[":
            j = o.index("]", i)
            r.append(o[i:j + 1])
            i = j + 1
        else:
            r.append(o[i])
            i += 1
    return r


def lexicon(entries, weighted=False, interleave=False):
    """Transducer of a finite lexicon: (word, output) pairs; outputs of a word come in the given order."""
    f = Fst(weighted)
    node = {"": 0}
    for w, o in entries:
        for k in range(1, len(w) + 1):
            p = w[:k]
            if p not in node:
                node[p] = f.state()
                f.arc(node[p[:-1]], p[-1], "", node[p])
        s = node[w]
        syms = split_output(o)
        for x in syms:
            t = f.state()
            f.arc(s, "", x, t)
            s = t
        f.accept(s)
    return f


class Reader:
    """Lookups in an unweighted file (development use only: for harvesting outputs of the real lexicon)."""
    def __init__(self, path):
        d = open(path, "rb").read()
        self.d = d
        n = struct.unpack_from("<H", d, 16)[0]
        p = 18
        self.syms = []
        for _ in range(n):
            q = d.index(0, p)
            self.syms.append(d[p:q].decode())
            p = q + 1
        if p % 8:
            p += 8 - p % 8
        self.base = p
        self.idx = {s: i for i, s in enumerate(self.syms)}

    def trans(self, st):
        def cell(k):
            return struct.unpack_from("<HHI", self.d, self.base + 8 * k)
        i, o, ti = cell(st)
        more = ti >> 24
        cells = [st]
        if more == 255:
            more = struct.unpack_from("<I", self.d, self.base + 8 * (st + 1))[0]
            cells += list(range(st + 2, st + 2 + more))
        else:
            cells += list(range(st + 1, st + 1 + more))
        for k in cells:
            i, o, ti = cell(k)
            yield i, o, ti & 0xFFFFFF

    def lookup(self, word, limit=50):
        res = []

        def flag(sym, fl):
            p = sym.strip("@").split(".")
            op, f, v = p[0], p[1], p[2] if len(p) > 2 else None
            cur = fl.get(f)
            if op == "P":
                return {**fl, f: v}
            if op == "C":
                g = dict(fl)
                g.pop(f, None)
                return g
            if op == "U":
                return {**fl, f: v} if cur in (None, v) else None
            if op == "R":
                return fl if (cur is not None if v is None else cur == v) else None
            if op == "D":
                return fl if (cur is None if v is None else cur != v) else None

        def go(st, k, out, fl, depth):
            if len(res) >= limit or depth > 600:
                return
            for i, o, t in self.trans(st):
                if i == 0xFFFF:
                    if k == len(word):
                        res.append(out)
                    continue
                si, so = self.syms[i], self.syms[o]
                if so.startswith("@") and len(so) > 1:
                    so = ""
                if si == "":
                    go(t, k, out + so, fl, depth + 1)
                elif si.startswith("@") and len(si) > 1:
                    g = flag(si, fl)
                    if g is not None:
                        go(t, k, out + so, g, depth + 1)
                elif k < len(word) and si == word[k]:
                    go(t, k + 1, out + so, fl, depth + 1)
        import sys
        sys.setrecursionlimit(10000)
        go(0, 0, "", {}, 0)
        return res
