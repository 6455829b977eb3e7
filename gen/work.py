"""Inputs for the checks: exhaustive over small alphabets, and random structured ones (seeded)."""
import itertools

# one or more representatives of every class of characters that the rules tell apart
TEXT_ALPHABET = "aB1 .,-':@/\"#\u00ad\u2019?)"
SMALL_ALPHABET = "aB1 .-:\",!"
BASIC = [c for c in range(1, 0x3000) if c not in (0,)]
OTHER = [0x3000, 0x3041, 0xA640, 0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04, 0xFB05, 0xFFFD, 0x1F600, 0x10400, 0x10FFFF, 0x1D400]


def strings(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


FRAG = ["http://", "https://", "www.", ".fi", "@", "a.b@c.d", "http://a.b/c?d=e#f%20", "x@y.z.", "...", "\u2026", "1,5", "1.5.", "10.-12.", "a:n", "EU:n",
        "rock-'n'-roll", "vaa'an", "vaa\u2019an", "-aho", "esi-", "\u2010sana", "sa\u00adna", "\"", "\u201d", "\u00bb", "\u201c", "'", "(", ")", "[1]", "{}", "&", "/", "*", "_", "=",
        "%", "$", "#", "~", "|", "^", "`", "+", "<", ">", " ", "  ", "\n", "\t", "\u00a0", "\u2003", "koira", "Kissa", "KISSA", "e", "\u00e4iti", "\u00c4iti", "\u0161", "s\u030c", "\u0451\u0436", "\u1400",
        ".", ",", ";", ":", "!", "?", "-", "\u2013", "\u2014", "1", "23", "2012", "\u0391", "\u65e5", "\U0001F600", "esim.", "K.", "a", "b", "C"]


def text(rng, n):
    return "".join(rng.choice(FRAG) for _ in range(rng.randint(1, n)))


def mutate(rng, s, alphabet="aeikostu\u00e4\u00f6-'1.A\u00ad\u2010\u2019 "):
    s = list(s)
    for _ in range(rng.randint(1, 2)):
        p = rng.randint(0, len(s))
        k = rng.randint(0, 3)
        if k == 0 and p < len(s):
            del s[p]
        elif k == 1:
            s.insert(p, rng.choice(alphabet))
        elif k == 2 and p < len(s):
            s[p] = rng.choice(alphabet)
        elif p + 1 < len(s):
            s[p], s[p + 1] = s[p + 1], s[p]
    return "".join(s)


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def split(seq, k):
    """k parts of about equal size"""
    seq = list(seq)
    return [p for p in (seq[i::k] for i in range(k)) if p]
