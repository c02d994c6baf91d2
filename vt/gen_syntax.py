"""Random derivations from the BMS grammar, without regard to meaning."""

from . import ref_lex

NAMES = ["a", "b", "c", "f", "g", "x1", "_", "asx", "foo_bar"]
BINARY = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "<<", ">>", "&",
          "|", "^"]
ARITH = ["+", "-", "*", "/", "%"]
COMPARE = ["==", "!=", "<", ">", "<=", ">="]


class G:
    def __init__(self, rng, budget=60):
        self.r = rng
        self.budget = budget
        self.out = []
        # lists are mostly short, and sometimes very long
        self.more = rng.choice([.5, .5, .5, .5, .5, .5, .5, .9])

    def p(self, *toks):
        self.out += toks
        self.budget -= len(toks)

    def few(self):
        return self.budget > 0 and self.r.random() < self.more

    def name(self):
        self.p(self.r.choice(NAMES))

    def program(self):
        self.declaration()
        while self.few():
            self.declaration()
        return self.out

    def maybe_annotations(self, prob=.12):
        if self.r.random() < prob:
            self.annotations()

    def annotations(self):
        while True:
            self.p("@")
            self.name()
            k = self.r.randrange(4)
            if k:
                self.p("(")
                if k > 1:
                    while True:
                        if self.r.random() < .4:
                            self.name()
                            self.p("=")
                        self.p(self.r.choice(["1", "0x1F", "0b1", "017", "true", "false", '"s"',
                                              '""', '"a\\"b,)"']))
                        if not self.few():
                            break
                        self.p(",")
                self.p(")")
            if self.r.random() < .7:
                break

    def declaration(self):
        k = self.r.randrange(4)
        if k == 0:
            self.static_assert()
            return
        self.maybe_annotations()
        self.const() if k == 1 else self.function()

    def const(self):
        self.p("const")
        self.name()
        if self.r.random() < .4:
            self.p(":")
            self.type()
        self.p("=")
        self.expression()
        self.p(";")

    def let(self):
        self.p("let")
        self.name()
        k = self.r.randrange(3)
        if k:
            self.p(":")
            self.type()
        if k != 1:
            self.p("=")
            self.expression()
        self.p(";")

    def static_assert(self):
        self.p("static_assert", "(")
        self.expression()
        self.p(")", ";")

    def function(self):
        self.p("function")
        self.name()
        self.p("(")
        if self.r.random() < .6:
            while True:
                self.name()
                self.p(":")
                self.type()
                if not self.few():
                    break
                self.p(",")
        self.p(")", "->")
        self.type()
        if self.r.random() < .25:
            self.p("requires")
            self.expression()
        self.block()

    def block(self):
        self.p("{")
        while self.few():
            self.statement()
        self.p("}")

    def statement(self):
        k = self.r.randrange(12)
        if k <= 4:
            self.maybe_annotations()
        if k == 0:
            self.let()
        elif k == 1:
            self.const()
        elif k == 2:
            self.if_()
        elif k == 3:
            self.p("while")
            self.expression()
            self.block()
        elif k == 4 or k == 9:
            self.name()
            self.p("=")
            self.expression()
            self.p(";")
        elif k == 5:
            self.p(self.r.choice(["break", "continue"]), ";")
        elif k == 6 or k == 10:
            self.p("return")
            if self.r.random() < .8:
                self.expression()
            self.p(";")
        elif k == 7:
            self.call()
            self.p(";")
        elif k == 8:
            self.static_assert()
        else:
            self.block()

    def if_(self):
        self.p("if")
        self.expression()
        self.block()
        while self.r.random() < .3 and self.budget > 0:
            self.p("else", "if")
            self.expression()
            self.block()
        if self.r.random() < .4:
            self.p("else")
            self.block()

    def type(self):
        t = self.r.choice(["Bool", "Int", "Void", "Uint", "Uint"])
        self.p(t)
        if t == "Uint":
            self.p("(")
            if self.r.random() < .7 or self.budget < 0:
                self.p("8")
            else:
                self.expression()
            self.p(")")

    def expression(self):
        if self.r.random() < .12:
            self.prefix()
            self.p("as")
            self.type()
        else:
            self.if_expression()

    def if_expression(self):
        self.binary()
        while self.r.random() < .15 and self.budget > -30:
            self.p("if")
            self.binary()
            self.p("else")
            self.binary()

    def binary(self):
        k = self.r.randrange(10)
        if k < 5 or self.budget < 0:
            self.prefix()
        elif k < 8:
            self.prefix()
            self.p(self.r.choice(BINARY))
            self.prefix()
        else:
            self.arith()
            self.p(self.r.choice(COMPARE))
            self.arith()

    def arith(self):
        self.prefix()
        if self.r.random() < .5:
            self.p(self.r.choice(ARITH))
            self.prefix()

    def prefix(self):
        if self.r.random() < .2:
            self.p(self.r.choice("+-!~"))
        k = self.r.randrange(10)
        if self.budget < 0:
            k = k % 5
        if k < 3:
            self.name()
        elif k < 5:
            self.p(self.r.choice(["0", "1", "255", "0xff", "0b101", "017", "true", "false"]))
        elif k < 7:
            self.call()
        else:
            self.p("(")
            self.expression()
            self.p(")")

    def call(self):
        self.name()
        self.p("(")
        if self.r.random() < .7:
            while True:
                self.expression()
                if not self.few():
                    break
                self.p(",")
        self.p(")")
        self.maybe_annotations(.06)


def comment_run(rng):
    """One comment, or a few, or many in a row."""
    n = 1 if rng.random() < .6 else rng.randint(2, 6) if rng.random() < .9 else rng.randint(7, 40)
    return "".join(rng.choice(["/* c */", "// c\n", "/*;*/ ", "//)==\n", "/**/", "//\n", "/* \n\n */\n"])
                   for _ in range(n))


def commented(rng, src):
    """The source with comments at some of the places where they may be."""
    toks, err = ref_lex.lex(src)
    if err is not None:
        return src
    where = [0, len(src)] + [t.begin for t in toks] + [t.begin + t.length for t in toks]
    for at in sorted((rng.choice(where) for _ in range(rng.choice([1, 1, 1, 2, 5]))), reverse=True):
        src = src[:at] + (" " if src[at - 1:at] == "/" else "") + comment_run(rng) + src[at:]
    return src


def join(rng, toks, comments=.0):
    out = []
    for t in toks:
        out.append(t)
        x = rng.random()
        if x < comments:
            out.append(comment_run(rng))
        else:
            out.append(rng.choice([" ", " ", " ", " ", "\n", "\n  ", "\t"]))
    return "".join(out)


def program(rng, budget=None, comments=0.0):
    g = G(rng, budget or rng.choice([5, 15, 30, 60, 150]))
    return join(rng, g.program(), comments)


def nested(rng, depth):
    """Deeply nested constructs of bounded depth."""
    k = rng.randrange(6)
    if k == 0:
        return "const a = " + "(" * depth + "1" + ")" * depth + ";"
    if k == 1:
        return "function f() -> Int " + "{ " * depth + "return 1; " + "}" * depth
    if k == 2:
        return "const a = " + "f(" * depth + "1" + ")" * depth + ";"
    if k == 3:
        return "const a = " + "1 if b else " * depth + "0;"
    if k == 4:
        return "function f() -> Int " + "{ if x " * depth + "{ }" + "}" * depth
    return "const a = " + "-(1 + " * depth + "1" + ")" * depth + ";"
