"""Generator of BMD documents: well-formed ones, nearly well-formed ones, and noise."""
import glob
import os
import random

from . import build as B
from . import ref_bmd as R

WORDS = ["a", "Lorem", "ipsum", "x&y", "<b>", "1>0", "&lt;", "\"q\"", "'s'", "\\{", "\\}", "\\\\", "a\\\\b",
         "/", "a/b", "*", "]", "[x=1]", "=", ",", "end.", "\xe9", "\x01", "-->", "<!--", "</p>", "0x1", "&",
         "\\{x\\}", "a\\{", "#", "~", "http:/x"]
NAMES = ["class", "id", "x", "_y", "lang", "arch", "ext", "a1", "Z", "href", "style"]
VALUES = ["0", "1", "42", "0x1F", "0b101", "017", "9223372036854775807", "abc", "_x", "bms", "c", "x86",
          "x86_64", "arm", "risc_v", "cpp", "plain", "rust", "bmd", "text", "sparc", "ibm_z", "power"]
BAD_VALUES = ["9223372036854775808", "340282366920938463463374607431768211456", "0x", "0b", "1a", "09", "",
              "0b2", "-1", "\"s\"", "0x8000000000000000", "1_", "0xg"]
CODE = ["const x = 1;", "function f(x: Uint(N)) -> Int { return x & 1; }", "0b1010 as Uint(8)", "x << 1",
        "a // c\n", "/* { */ 1", "\"str\"", "x", " 4 ", "if a < b { c = d; }", "1 &&\n\ttrue", "@a(b = 1)", "$",
        "\"open", "0x", "'", "a\r\nb", "\n  let a = 1;\n    b = a;\n", "{}", "{ { } }", "/* a\n b */ c", "=>", "<", "&"]


def blank(rng, brk=False):
    if brk:
        return rng.choice(["\n\n", "\n\n\n", " \n \n ", "\n\t\n", "// c\n\n", "\n/* c */\n\n", "\r\n\r\n", "\n\n// x }\n"])
    return rng.choice([" "] * 8 + ["\n", "\n", "  ", "\t", " \n ", "/* c */", " /* {\n */ ", "// c } \n", "\r\n", "\v",
                                   "\n// c\n", " /**/ ", "\n/* x */\n", "/*\n\n*/", "/***/", "\f"])


def maybe(rng, p=.5):
    return blank(rng) if rng.random() < p else ""


def text(rng, n=None):
    out = rng.choice(WORDS)
    for _ in range(rng.randrange(4) if n is None else n):
        out += rng.choice([" ", " ", "", "\n", "  ", "\t"]) + rng.choice(WORDS)
    return out.replace("\n\n", "\n")


def value(rng):
    k = rng.random()
    if k < .8:
        return rng.choice(VALUES)
    if k < .9:                                        # a name of any length
        n = rng.choice([2, 5, 15, 16, 31, 32, 33, 63, 64, 65, 200, 300])
        return rng.choice("abcxyz_Q") + "".join(rng.choice("abz09_AZ") for _ in range(n))
    x = rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 62, 63]))
    return rng.choice([str(x), hex(x), bin(x), "0" + oct(x)[2:]])


def args(rng, names=None, bad=0.0):
    k = rng.choice([1, 1, 1, 2, 3]) if rng.random() < .97 else rng.randrange(4, 12)
    pool = list(names or NAMES)
    rng.shuffle(pool)
    out = []
    for name in pool[:k]:
        v = rng.choice(BAD_VALUES) if rng.random() < bad else value(rng)
        out.append(maybe(rng, .2) + name + maybe(rng, .2) + "=" + maybe(rng, .2) + v + maybe(rng, .2))
    if rng.random() < bad:
        out.append(rng.choice(["", " ", "x", "=1", "1=1", "x=", pool[0] + "=2", "x=1 y=2"]))
    return "[" + ",".join(out) + "]"


class Gen:
    def __init__(self, rng, bad=0.0, meta=True):
        self.rng, self.bad, self.meta = rng, bad, meta

    def code(self):
        rng = self.rng
        out = rng.choice(CODE)
        while rng.random() < .3:
            out += rng.choice([" ", "\n", "", "\t", "\r\n"]) + rng.choice(CODE)
        return out

    def directive(self, env, depth):
        rng = self.rng
        names = [n for n, d in R.DIRECTIVES.items() if d[1] == env]
        if env == "content" and "meta" in names and rng.random() > self.bad:
            names.remove("meta")
        name = rng.choice(names)
        if rng.random() < self.bad:
            name = rng.choice(list(R.DIRECTIVES) + ["zzz", "bb", "", "B", "1", "math", "u_", "code", "a", "h7", "ulx"])
        out = "\\" + name
        p = .25
        own = {"c": ["lang"], "codeblock": ["lang"], "instruction": ["arch", "ext"]}.get(name)
        if own and rng.random() < .7:
            p = .6
        if rng.random() < p:
            if own and rng.random() < .8:
                vals = {"lang": sorted(R.LANGS), "arch": sorted(R.ARCHS), "ext": ["abm", "Zbb", "x_1", "bms"]}
                out += "[" + ", ".join(f"{k}={rng.choice(vals[k]) if rng.random() > max(self.bad, .06 if k == 'ext' else 0) else value(rng)}"
                                       for k in own if rng.random() < .8 or k == own[0]) + "]"
            else:
                out += args(rng, bad=self.bad)
        content = R.DIRECTIVES.get(name, ("span", "", ""))[0]
        if rng.random() < self.bad / 2:
            content = rng.choice(["span", "block", "raw", "nothing", "list", "meta", "text"])
        if content == "nothing":
            if rng.random() < .2:
                out += "{" + maybe(rng) + ("x" if rng.random() < self.bad else "") + "}"
            return out
        if rng.random() < .1:
            return out
        if content == "raw":
            body = self.code()
        elif content == "text":
            body = maybe(rng, .2) + (text(rng) if rng.random() < .9 else "") + maybe(rng, .2)
            if rng.random() < self.bad:
                body += rng.choice(["\\b{x}", "\n\nx", "/**/ x", "// c\n y"])
        elif content == "span":
            body = maybe(rng, .3) + self.paragraph(depth + 1, rng.randrange(4)) + maybe(rng, .3)
            if rng.random() < self.bad / 2:
                body += blank(rng, True) + text(rng)
        elif content == "block":
            body = self.content(depth + 1)
        else:
            body = maybe(rng)
            for _ in range(rng.randrange(5) if depth < 6 else 0):
                body += self.directive(content, depth + 1) + (blank(rng, rng.random() < .3) if rng.random() < .8 else "")
            if rng.random() < self.bad:
                body += text(rng)
        return out + "{" + body + "}"

    def paragraph(self, depth, n):
        rng, out, last = self.rng, "", None
        for _ in range(n):
            if depth < 7 and rng.random() < .45:
                piece, kind = self.directive("paragraph", depth), "d"
            else:
                piece, kind = text(rng), "t"
            gap = blank(rng) if rng.random() < .75 else ""
            if last is not None and not gap and last != "d" and kind != "d":
                gap = " "
            # an argument list or block must not be glued on accidentally
            if last == "d" and not gap and piece[:1] in "[{":
                gap = " "
            if last == "d" and not gap and kind == "t" and (piece[0].isalnum() or piece[0] == "_") and out[-1] not in "}]":
                gap = " "
            out += (gap if last is not None else "") + piece
            last = kind
        return out

    def content(self, depth):
        rng = self.rng
        out = blank(rng, rng.random() < .5) if rng.random() < .5 else ""
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5] if depth < 5 else [0, 1])):
            if rng.random() < .4:
                out += self.directive("content", depth) + (blank(rng, rng.random() < .5) if rng.random() < .7 else "\n")
            else:
                out += self.paragraph(depth, rng.choice([1, 1, 2, 3, 5])) + blank(rng, rng.random() < .7)
        return out

    def document(self):
        rng = self.rng
        out = ""
        if self.meta and rng.random() < .4:
            out = maybe(rng, .3) + "\\meta" + ("{" + maybe(rng) + "".join(
                self.meta_entry() + blank(rng) for _ in range(rng.randrange(4))) + "}" if rng.random() < .95 else "") + "\n"
        out += self.content(0)
        return out.rstrip("\n") if rng.random() < .3 else out

    def meta_entry(self):
        rng = self.rng
        name = rng.choice(["title", "bmsfun", "cequiv"])
        return "\\" + name + (args(rng) if rng.random() < .2 else "") + (
            "{" + maybe(rng, .2) + (text(rng) if rng.random() < .9 else "") + maybe(rng, .2) + "}" if rng.random() < .95 else "")


_CORPUS = None


def corpus():
    global _CORPUS
    if _CORPUS is None:
        _CORPUS = []
        for p in sorted(glob.glob(os.path.join(B.REPO, "**", "*.bmd"), recursive=True)):
            if "/build" not in p:
                with open(p, "rb") as f:
                    _CORPUS.append(f.read().decode("latin-1"))
        _CORPUS = _CORPUS or ["\\b{x}"]
    return _CORPUS


BITS = ["\\", "{", "}", "[", "]", "=", ",", "//", "/*", "*/", "\n", "\n\n", " ", "\t", "\r", "a", "1", "0x", "\\{", "\\}",
        "\\\\", "\\b", "\\br", "\\hr", "\\c", "\\codeblock", "\\ul", "\\item", "\\note", "\\meta", "\\title", "\\instruction",
        "\\h1", "[a=1]", "{x}", "/", "*", "_", "\0", "\xff", "lang=c", "\\ol{\\item{x}}", "&", "<"]


def soup(rng):
    return "".join(rng.choice(BITS) for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20, 60])))


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randrange(len(s) + 1)
        k = rng.randrange(5)
        if k == 0:
            s = s[:i] + s[i + rng.choice([1, 1, 2, 8]):]
        elif k == 1:
            s = s[:i] + rng.choice(BITS) + s[i:]
        elif k == 2:
            j = min(len(s), i + rng.randrange(30))
            s = s[:i] + s[i:j] * 2 + s[j:]
        elif k == 3:
            s = s[:i]
        else:
            # swap two pieces
            a, b, c = sorted(rng.randrange(len(s) + 1) for _ in range(3))
            s = s[:a] + s[b:c] + s[a:b] + s[c:]
    return s


SHAPES = [
    lambda n: "\\b{" * n + "x" + "}" * n,
    lambda n: "\\b{" * n,
    lambda n: "\\note{" * n + "x" + "}" * n,
    lambda n: "\\ul{\\item{" + "\\i{" * n + "}" * n + "}}",
    lambda n: "{" * n + "}" * n,
    lambda n: "\\codeblock{" + "{" * n + "}" * n + "}",
    lambda n: "\\hr " * n,
    lambda n: "x\n\n" * n,
    lambda n: "x /* */ " * n,
    lambda n: "\\b[" + ",".join(f"a{i}={i}" for i in range(n)) + "]{x}",
    lambda n: "\\\\" * n + "\\{" * n,
    lambda n: "/" * n,
    lambda n: "\\i" * n,
    lambda n: "\\br{}" * n,
]


def make(rng, i):
    """A document and whether it was meant to be valid."""
    k = i % 8
    if k < 3:
        return Gen(rng).document()
    if k == 3:
        return Gen(rng, rng.choice([.02, .1, .3])).document()
    if k == 4:
        return mutate(rng, Gen(rng).document())
    if k == 5:
        return mutate(rng, rng.choice(corpus()))
    if k == 6:
        return soup(rng)
    if i % 64 == 7:
        return rng.choice(SHAPES)(rng.choice([0, 1, 2, 5, 30, 100]))
    if i % 64 == 15:
        return "".join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 5, 100, 1000])))
    return Gen(rng, .05).document()
