"""C01: tokens."""
from conform import Session
import dicts, work

LAWS = """INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS Alphabet = {97, 66, 49, 32, 46, 44, 45, 39, 58, 64, 34, 35, 173}
          MaxLen = %d
CHECK_DEADLOCK FALSE
"""


def check(ctx):
    ctx.model("MCTokens", LAWS % ctx.n(4, 5), workers=8, what="laws of the tokenisation for every text over 13 character classes up to the length")
    root = ctx.write_dicts([dicts.tiny()])
    rng = ctx.rng
    texts = list(work.strings(work.TEXT_ALPHABET, 3))
    texts += ["".join(rng.choice(work.TEXT_ALPHABET) for _ in range(rng.randint(4, 9))) for _ in range(ctx.n(25000, 250000))]
    addr = "ab.@/:1-h"
    texts += ["http://" + "".join(rng.choice("a./=#% \u00e4-&") for _ in range(rng.randint(0, 9))) for _ in range(ctx.n(1500, 15000))]
    texts += ["".join(rng.choice("ab1@@..#-+ ,\u00e4") for _ in range(rng.randint(5, 14))) for _ in range(ctx.n(4000, 40000))]
    texts += [work.text(rng, 12) for _ in range(ctx.n(6000, 60000))]
    texts += [work.text(rng, 150) for _ in range(ctx.n(60, 600))]
    ss = []
    for k, part in enumerate(work.split(texts, 64)):
        s = Session("texts")
        s.open("tiny", "fi-x-tiny", root)
        for i, t in enumerate(part):
            if i % 500 == 0:
                s.setb(0, (i // 500 + k) % 2)
            s.text("tok", t, mode="zxg"[(i + k) % 3])
        ss.append(s)
    # every character, alone and between letters, digits and spaces
    allc = work.BASIC + work.OTHER
    for part in work.split(allc, 16):
        s = Session("characters")
        s.open("tiny", "fi-x-tiny", root)
        for c in part:
            s.text("tok", [97, c, 97, 32, c, c, 49, c, 46], mode="x")
        ss.append(s)
    ctx.validate(ss, root)
