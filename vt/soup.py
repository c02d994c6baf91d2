"""Untyped sources: token soup, mutations of corpus files, byte noise."""
import glob
import os

from . import build as B
from . import ref_lex

_cache = {}


def corpus(ext="bms"):
    if ext not in _cache:
        files = sorted(glob.glob(os.path.join(B.REPO, "test", "**", "*." + ext), recursive=True))
        out = []
        for f in files:
            try:
                s = open(f, "rb").read().decode("latin-1")
            except OSError:
                continue
            if len(s) < 20000:
                out.append(s)
        _cache[ext] = out or ["const a = 1;\n"]
    return _cache[ext]


SPACE = [" ", " ", " ", "\n", "\n", "\t", "\r\n", "  ", "\n\n", "\r", " \t "]
COMMENTS = ["// line\n", "//\n", "/* b */", "/**/", "/***/", "/* a\n b */", "/*/ */", "/* // */",
            "// /* \n", "/* \t*/", "//\t\t\n", "/* \r\n * \n*/"]
BAD_COMMENTS = ["/* open", "/*", "/* *", "// end"]
WORDS = list(ref_lex.KEYWORDS)
NAMES = ["a", "b", "x", "_", "_1", "foo", "lets", "Letx", "LET", "uint", "Uint8", "iff", "as_", "If",
         "static_asserts", "constt", "A9", "asas", "z" * 40]
SYMBOLS = [s for s, _ in ref_lex.SYMBOLS]
STRINGS = ['""', '"abc"', '"a\\"b"', '"\\\\"', '"a\nb"', '"\t"', '"/* */"', '"//"', '"a\\\nb"',
           '"let"', '"\\n"', '"\xe4"', "\"'\"", '"\\\\\\""']
BAD_STRINGS = ['"', '"abc', '"\\"', '"\\']
BAD_CHARS = ["$", "#", "?", "'", "`", "\\", "[", "]", "\x00", "\x7f", "\x80", "\xff", "\v", "\f",
             "\x1b", "\xc3\xa4"]


def number(rng):
    k = rng.randrange(12)
    n = rng.randrange(1, 30)
    if k < 3:
        return str(rng.choice([0, 1, 7, 8, 9, 10, rng.getrandbits(8), rng.getrandbits(64),
                               rng.getrandbits(127)]))
    if k == 3:
        return "0x" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(n))
    if k == 4:
        return "0b" + "".join(rng.choice("01") for _ in range(n))
    if k == 5:
        return "0" + "".join(rng.choice("01234567") for _ in range(n))
    if k == 6:
        return rng.choice(["0x", "0b", "0xg", "0b2", "0b12", "0X1", "0B1", "08", "09", "018", "0_",
                           "1_", "1a", "0xfg", "00", "000", "007", "0b1a", "1x", "12e3", "0b0b1",
                           "0x0x1", "0xG", "9z9"])
    return str(rng.randrange(0, 300))


def long_piece(rng):
    """A token or a gap of unusual size."""
    n = rng.choice([63, 64, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 2000, 4097])
    return rng.choice([lambda: "x" * n, lambda: "/*" + "a\n" * (n // 2) + "*/", lambda: "/*" + "*" * n + "*/",
                       lambda: "//" + "b" * n + "\n", lambda: '"' + "s" * n + '"', lambda: "1" * n,
                       lambda: "0b" + "01" * (n // 2), lambda: " " * n, lambda: "\n" * n, lambda: "\t" * n,
                       lambda: "(" * (n % 100) + ")" * (n % 100)])()


def piece(rng, bad):
    k = rng.randrange(100)
    if k == 99 and rng.random() < .15:
        return long_piece(rng)
    if k < 22:
        return rng.choice(WORDS)
    if k < 38:
        return rng.choice(NAMES)
    if k < 55:
        return number(rng) if rng.random() < bad * 3 or rng.random() < .1 else str(rng.randrange(99))
    if k < 85:
        return rng.choice(SYMBOLS)
    if k < 90:
        return rng.choice(STRINGS)
    if k < 96:
        return rng.choice(COMMENTS)
    if rng.random() < bad:
        return rng.choice(BAD_CHARS + BAD_STRINGS + BAD_COMMENTS)
    return rng.choice(SPACE)


def soup(rng, n=None, bad=None):
    """Random tokens with random separation (also none, so that tokens collide)."""
    n = n if n is not None else rng.choice([1, 2, 3, 5, 10, 40, 150])
    bad = bad if bad is not None else rng.choice([0, 0, 0.02, 0.2])
    glue = rng.choice([0.05, 0.3, 0.9])
    out = []
    for _ in range(n):
        out.append(piece(rng, bad))
        if rng.random() > glue:
            out.append(rng.choice(SPACE))
    return "".join(out)


def mutate(rng, s, times=None):
    for _ in range(times or rng.choice([1, 1, 1, 2, 3, 8])):
        a = rng.randrange(len(s) + 1)
        k = rng.randrange(8)
        if k == 0:
            b = min(len(s), a + rng.choice([1, 1, 2, 5, 30]))
            s = s[:a] + s[b:]
        elif k <= 3:
            s = s[:a] + piece(rng, 0.3) + s[a:]
        elif k == 4:
            b = min(len(s), a + rng.randrange(1, 60))
            c = rng.randrange(len(s) + 1)
            s = s[:c] + s[a:b] + s[c:]
        elif k == 5:
            s = s[:a] + chr(rng.randrange(256)) + s[a + 1:]
        elif k == 6:
            b = rng.randrange(len(s) + 1)
            a, b = min(a, b), max(a, b)
            if b - a < 200:
                s = s[:a] + s[b:]
        else:
            s = s[:a] + rng.choice(["/*", "*/", '"', "\\", "\n", "\t", "\r", "0x", "07", "_", " ",
                                    "==", "=>", "->", "-", "!", "//", "{", "}", "(", ")", ";", ","]
                                   ) + s[a:]
    return s


def _move_group(rng, texts, i):
    """Duplicates or moves a bracketed group, with a few tokens before or after it."""
    opening = [j for j, t in enumerate(texts) if t in ("(", "{")]
    if not opening:
        return
    a = rng.choice(opening)
    depth, b = 0, a
    while b < len(texts):
        depth += (texts[b] in ("(", "{")) - (texts[b] in (")", "}"))
        if depth == 0:
            break
        b += 1
    b = min(len(texts), b + 1 + rng.choice([0, 0, 0, 1]))
    a = max(0, a - rng.choice([0, 1, 1, 2, 3]))
    if b - a > 60:
        return
    chunk = texts[a:b]
    k = rng.randrange(4)
    if k == 0:
        del texts[a:b]
    at = b if k >= 2 else min(i, len(texts))
    texts[at:at] = chunk


def mutate_tokens(rng, s, times=None):
    """Token-level mutation of a lexable source: delete, duplicate, swap, replace a token."""
    toks, _ = ref_lex.lex(s)
    texts = [s[t.begin:t.begin + t.length] for t in toks]
    if not texts:
        return s
    for _ in range(times or rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(texts))
        k = rng.randrange(9)
        if k == 0:
            del texts[i]
        elif k >= 7:
            _move_group(rng, texts, i)
        elif k == 1:
            texts.insert(i, texts[i])
        elif k == 2:
            j = rng.randrange(len(texts))
            texts[i], texts[j] = texts[j], texts[i]
        elif k == 3:
            texts[i] = rng.choice(texts)
        elif k == 4:
            texts.insert(i, rng.choice(SYMBOLS + WORDS + ["a", "1", '"s"']))
        elif k == 5:
            texts[i] = rng.choice(SYMBOLS + WORDS + ["a", "1", '"s"'])
        else:
            del texts[i + 1:]
        if not texts:
            return ""
    out = []
    for t in texts:
        out.append(t)
        out.append("\n" if t.startswith("//") else rng.choice([" ", " ", " ", "\n"]))
    return "".join(out)
