"""Random meaningful BMS programs: well typed by construction unless something is injected."""
from .ref_sema import BOOL, INT, VOID, uint, type_name

WIDTHS = [1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128]
ARITH = ["+", "-", "*", "/", "%"]
BITS = ["&", "|", "^"]
SHIFT = ["<<", ">>"]
REL = ["<", ">", "<=", ">="]
EQ = ["==", "!="]


def literal(rng, v):
    """A spelling of the non-negative integer v."""
    k = rng.randrange(8)
    if k == 0:
        s = f"{v:x}"
        return "0x" + "".join(c.upper() if rng.random() < .5 else c for c in s)
    if k == 1:
        return "0b" + f"{v:b}"
    if k == 2:
        return "0" + f"{v:o}"
    return str(v)


class Fun:
    def __init__(self, name, params, ret, generic=False):
        self.name, self.params, self.ret, self.generic = name, params, ret, generic
        # params: list of (name, type); a type of a generic function may be ("Gen", "N") or
        # ("Same", "N")
        self.const_ok = True


class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        self.o = dict(widths=None, functions=3, consts=4, asserts=True, big=.2, depth=3,
                      generics=.25, loops=True, uninit=.1, requires=.15, risky=.12, voids=.15,
                      static=.3, missing_return=.03, few_widths=True)
        self.o.update(opt)
        ws = list(WIDTHS)
        if self.o["few_widths"]:
            ws = rng.sample(ws, 2)
        self.widths = ws
        self.n = 0
        self.funs = []
        self.scopes = [[]]          # lists of (name, type, kind) kind: const let param loop
        self.loop = 0
        self.fn = None
        self.const_only = False
        self.lines = []

    # ------------------------------------------------------------ helpers
    def p(self, x):
        return self.r.random() < x

    def fresh(self, prefix):
        self.n += 1
        return f"{prefix}{self.n}"

    def type(self, void=False):
        k = self.r.random()
        if void and k < .08:
            return VOID
        if k < .22:
            return BOOL
        if k < .45:
            return INT
        return uint(self.r.choice(self.widths))

    def ttext(self, t):
        if t[0] == "Uint":
            w = t[1]
            k = self.r.random()
            if k < .08 and w > 1:
                a = self.r.randrange(1, w)
                return f"Uint({a} + {w - a})"
            if k < .12:
                return f"Uint({literal(self.r, w)})"
            if k < .15:
                return f"Uint({w} if true else {self.r.choice([0, 200, 5])})"
            for name, ty, kind, val in self.widthconsts():
                if val == w and self.p(.5):
                    return f"Uint({name})"
            return f"Uint({w})"
        if t[0] in ("Gen", "Same"):
            return f"Uint({t[1]})"
        return t[0]

    def widthconsts(self):
        return getattr(self, "wc", [])

    def vars(self, t=None, kinds=None):
        out = []
        for s in self.scopes:
            for name, ty, kind in s:
                if (t is None or ty == t) and (kinds is None or kind in kinds):
                    if self.const_only and kind != "const":
                        continue
                    out.append((name, ty, kind))
        return out

    # ------------------------------------------------------------ expressions
    def expr(self, t, d=None):
        """Any expression, unparenthesized, of type t."""
        d = self.o["depth"] if d is None else d
        if d <= 0 or self.p(.12):
            return self.atom(t, d)
        if t != VOID and self.p(.06 if self.const_only else .02):
            return self.with_dead_code(t, d)
        k = self.r.random()
        if k < .10:
            return self.if_expr(t, d)
        if t == BOOL:
            if k < .45:
                u = self.type()
                if u == BOOL:
                    op = self.r.choice(EQ)
                else:
                    op = self.r.choice(REL + EQ)
                a, b = self.operands(u, d - 1)
                if self.p(.2):
                    a2, b2 = self.operands(u, d - 1) if u != BOOL else (None, None)
                    if a2 is not None:
                        return f"{a} {self.r.choice(['+', '-', '*'])} {a2} {op} {b}"
                return f"{a} {op} {b}"
            if k < .75:
                return (f"{self.prefix(BOOL, d - 1)} {self.r.choice(['&&', '||'])} "
                        f"{self.prefix(BOOL, d - 1)}")
            if k < .85:
                return "!" + self.atom(BOOL, d - 1)
            return self.atom(t, d)
        if t == VOID:
            return self.atom(t, d)
        if t == INT:
            if k < .7:
                op = self.r.choice(ARITH)
                a, b = self.prefix(INT, d - 1), self.prefix(INT, d - 1)
                if op in "/%" and not self.p(self.o["risky"]):
                    b = self.lit(INT, nonzero=True)
                return f"{a} {op} {b}"
            if k < .8:
                return self.r.choice("+-") + self.atom(INT, d - 1)
            return self.atom(t, d)
        # Uint
        if k < .4:
            op = self.r.choice(ARITH)
            a, b = self.operands(t, d - 1)
            if op in "/%" and not self.p(self.o["risky"]):
                b = literal(self.r, self.r.randrange(1, min(1 << t[1], IMAXP)))
                a = self.prefix(t, d - 1)
            return f"{a} {op} {b}"
        if k < .6:
            a, b = self.operands(t, d - 1)
            return f"{a} {self.r.choice(BITS)} {b}"
        if k < .75:
            a = self.prefix(t, d - 1)
            if self.p(self.o["risky"]):
                b = self.prefix(t, d - 1)
            else:
                hi = min(t[1] - 1, (1 << t[1]) - 1)
                b = str(self.r.choice([0, hi, self.r.randint(0, hi)]))
            return f"{a} {self.r.choice(SHIFT)} {b}"
        if k < .88:
            return self.r.choice(["~", "-", "+", "~"]) + self.atom(t, d - 1)
        return self.conv(t, d)

    def if_expr(self, t, d):
        c = self.bin(BOOL, d - 1)
        a = self.bin(t, d - 1)
        b = self.expr_no_conv(t, d - 1)
        if t[0] == "Uint" and self.p(.25):
            lit = self.lit(INT, 1 << t[1])
            a, b = (lit, b) if self.p(.5) else (a, lit)
        return f"{a} if {c} else {b}"

    def bin(self, t, d):
        """A binary expression or simpler: what an if-expression may have as operand."""
        if d > 0 and self.p(.5):
            e = self.expr(t, d)
            if " if " not in e and " as " not in e:
                return e
            return f"({e})"
        return self.prefix(t, d)

    def with_dead_code(self, t, d):
        """An expression with an operand that has no value but is (usually) not evaluated either."""
        alive, dead = self.atom(t, d - 1), f"({self.poison(t, self.r.randrange(3))})"
        on = self.r.choice(["true", "(1 == 1)", "!false", f"({self.bool_true(1)})"])
        off = self.r.choice(["false", "(1 == 2)", "!true", f"!({self.bool_true(1)})"])
        if self.p(.03):
            on, off = off, on
        if t == BOOL and self.p(.7):
            a, op = self.r.choice([(on, "||"), (off, "&&")])
            return f"{a} {op} {dead}"
        if self.p(.5):
            return f"{alive} if {on} else {dead}"
        return f"{dead} if {off} else {alive}"

    def poison(self, t, d):
        """An expression of type t whose evaluation fails, at some depth."""
        r = self.r
        if d > 0:
            sub = f"({self.poison(t, d - 1)})"
            k = r.randrange(7)
            if k == 0:
                return r.choice("!" if t == BOOL else "+-" if t == INT else "~-+") + sub
            if k == 1:
                a, b = (sub, self.atom(t, 0)) if self.p(.5) else (self.atom(t, 0), sub)
                return f"{a} {r.choice(EQ if t == BOOL else ARITH)} {b}"
            if k == 2:
                return f"{sub} if true else {self.atom(t, 0)}"
            if k == 3:
                return f"{self.atom(t, 0)} if ({self.poison(BOOL, d - 1)}) else {self.atom(t, 0)}"
            if k == 4 and t == BOOL:
                return r.choice([f"true && {sub}", f"false || {sub}", f"{sub} || true", f"{sub} && false"])
            if k == 5:
                with_asserts = [f for f in self.funs if not f.generic and f.ret == t and f.params
                                and all(p[1] == INT or p[1][0] == "Uint" for p in f.params)]
                if with_asserts:
                    f = r.choice(with_asserts)
                    return (f"{f.name}(" + ", ".join([f"({self.poison(f.params[0][1], d - 1)})"]
                                                     + [self.atom(p[1], 0) for p in f.params[1:]]) + ")")
            return f"{self.atom(t, 0)} if false else {sub}"
        if t == INT:
            return r.choice(["1 / 0", "0 % 0", "(1 / 0) + 1", f"{IMAXP} + 1"])
        if t == BOOL:
            return r.choice(["1 / 0 == 1", "0 < 1 % 0", "(1 / 0) == (1 / 0)"])
        w = self.ttext(t)
        return r.choice([f"(1 / 0) as {w}", f"(1 as {w}) / (0 as {w})", f"(1 as {w}) % (0 as {w})",
                         f"(0 - 1) as {w}"])

    def expr_no_conv(self, t, d):
        e = self.expr(t, d)
        return f"({e})" if " as " in e else e

    def operands(self, t, d):
        a, b = self.prefix(t, d), self.prefix(t, d)
        if t[0] == "Uint" and self.p(.35):
            lit = self.lit(INT, (1 << t[1]) if not self.p(self.o["risky"]) else None)
            if self.p(.5):
                a = lit
            else:
                b = lit
        return a, b

    def prefix(self, t, d):
        if d > 0 and self.p(.15):
            ops = "!" if t == BOOL else "+-" if t == INT else "~-+" if t[0] == "Uint" else ""
            if ops:
                return self.r.choice(ops) + self.atom(t, d - 1)
        return self.atom(t, d)

    def lit(self, t, below=None, nonzero=False):
        if t == BOOL:
            return self.r.choice(["true", "false"])
        k = self.r.random()
        if k < .6:
            v = self.r.randrange(0, 20)
        elif k < 1 - self.o["big"]:
            v = self.r.choice([1, 2, 3]) << self.r.randrange(0, 20)
        else:
            v = max(0, (1 << self.r.choice([7, 8, 16, 31, 32, 63, 64, 100, 126, 127]))
                    + self.r.choice([-1, -1, -2, 0]))
            v = min(v, IMAXP)
        if below is not None:
            if v >= below:
                v = self.r.choice([0, below - 1, self.r.randrange(below)])
            v = min(v, IMAXP)
        if nonzero and v == 0:
            v = 1
        return literal(self.r, v)

    def conv(self, t, d):
        if t[0] == "Uint":
            if self.p(.6):
                return f"{self.lit(INT, 1 << t[1])} as {self.ttext(t)}"
            if self.p(self.o["risky"]):
                return f"{self.prefix(INT, d - 1)} as {self.ttext(t)}"
            return f"{self.prefix(t, d - 1)} as {self.ttext(t)}"
        return f"{self.prefix(t, d - 1)} as {self.ttext(t)}"

    def atom(self, t, d):
        """A postfix or primary expression of type t."""
        vs = self.vars(t)
        if vs and self.p(.6):
            return self.r.choice(vs)[0]
        if d > 0 and self.p(.35):
            c = self.call(t, d - 1)
            if c:
                return c
        if t == VOID:
            return self.call(VOID, 0) or ("assert(" + self.bool_true(d) + ")")
        if t[0] == "Uint":
            if vs and self.p(.5):
                return self.r.choice(vs)[0]
            if d > 0 and self.p(.5):
                return f"({self.expr(t, d - 1)})"
            return f"({self.lit(INT, 1 << t[1])} as {self.ttext(t)})"
        if d > 0 and self.p(.35):
            return f"({self.expr(t, d - 1)})"
        return self.lit(t)

    def bool_true(self, d):
        """A condition that usually holds."""
        if self.p(self.o["risky"] * .5):
            return self.expr(BOOL, d)
        vs = [v for v in self.vars() if v[1] not in (BOOL, VOID)]
        k = self.r.randrange(4)
        if vs and k == 0:
            v = self.r.choice(vs)[0]
            return f"{v} == {v}"
        if vs and k == 1:
            v = self.r.choice(vs)[0]
            return f"{v} <= {v}"
        if k == 2:
            return f"true || {self.prefix(BOOL, d - 1)}"
        return self.r.choice(["true", "!false", "0 < 1"])

    def call(self, t, d):
        """A call of a known function returning t, or None."""
        c = []
        for f in self.funs:
            if f is self.fn or (self.const_only and not f.const_ok):
                continue
            if f.ret == t or (f.generic and f.ret[0] in ("Gen", "Same") and t[0] == "Uint"):
                c.append(f)
        if not c:
            return None
        return self.call_of(self.r.choice(c), d, t)

    def call_of(self, f, d, t=None):
        gens = {}
        if f.generic and f.ret[0] in ("Gen", "Same") and t is not None:
            gens[f.ret[1]] = t[1]
        args = []
        for _, pt in f.params:
            if pt[0] in ("Gen", "Same"):
                w = gens.setdefault(pt[1], self.r.choice(self.widths))
                pt2 = uint(w)
                if pt[0] == "Same" and self.p(.2):
                    args.append(self.lit(INT, 1 << w))
                    continue
                args.append(self.expr(pt2, d))
            elif pt[0] == "Uint" and self.p(.4):
                args.append(self.lit(INT, 1 << pt[1]) if not self.p(self.o["risky"])
                            else self.expr(INT, d))
            else:
                args.append(self.expr(pt, d))
        return f"{f.name}({', '.join(args)})"

    # ------------------------------------------------------------ statements
    def block(self, ind, depth):
        self.scopes.append([])
        out = []
        many = self.r.randint(6, 16) if depth > 1 and self.p(.01) else self.r.randrange(0 if depth < 2 else 1, 4)
        # now and then a block is long, so that jumps past it or back over it are far
        if depth > 1 and self.p(.012):
            many = self.r.randint(16, 48)
        for _ in range(many):
            out += self.statement(ind, depth - 1 if many < 16 or self.p(.1) else 0)
        self.scopes.pop()
        return out

    def statement(self, ind, depth):
        pad = "    " * ind
        k = self.r.random()
        if k < .32:
            return [pad + self.let()]
        if k < .40:
            return self.const_decl(pad, local=True)
        if k < .58:
            vs = self.vars(kinds=("let",))
            if vs:
                name, t, _ = self.r.choice(vs)
                if t[0] == "Uint" and self.p(.25):
                    return [f"{pad}{name} = {self.lit(INT, 1 << t[1])};"]
                return [f"{pad}{name} = {self.expr(t)};"]
            return [pad + self.let()]
        if k < .76 and depth > 0:
            out = [f"{pad}if {self.expr(BOOL)} {{"] + self.block(ind + 1, depth)
            while self.p(.2):
                out += [f"{pad}}} else if {self.expr(BOOL)} {{"] + self.block(ind + 1, depth)
            if self.p(.5):
                out += [f"{pad}}} else {{"] + self.block(ind + 1, depth)
            return out + [pad + "}"]
        if k < .84 and depth > 0 and self.o["loops"]:
            return self.loop_stmt(pad, ind, depth)
        if k < .87 and self.o["asserts"]:
            return [f"{pad}assert({self.bool_true(2)});"]
        if k < .90:
            if self.loop and self.p(.6):
                return [pad + self.r.choice(["break;", "continue;"])]
            return [f"{pad}{self.ret()}"]
        if k < .93 and depth > 0:
            return [pad + "{"] + self.block(ind + 1, depth) + [pad + "}"]
        if k < .95:
            return [f"{pad}static_assert({self.const_expr(lambda: self.bool_true(1))});"]
        fs = [f for f in self.funs if f is not self.fn]
        if fs:
            return [f"{pad}{self.call_of(self.r.choice(fs), 1)};"]
        return [pad + self.let()]

    def const_expr(self, f):
        old, self.const_only = self.const_only, True
        try:
            return f()
        finally:
            self.const_only = old

    def let(self):
        name = self.fresh("v")
        if self.o["voids"] and self.p(.01):
            t = VOID
        else:
            t = self.type()
        k = self.r.random()
        if k < self.o["uninit"]:
            # declared and assigned right away, or (rarely) left uninitialized
            s = f"let {name}: {self.ttext(t)};"
            if not self.p(.3):
                s += f" {name} = {self.expr(t)};"
        elif k < .5:
            e = self.expr(t)
            if t[0] == "Uint" and self.p(.3):
                e = self.lit(INT, 1 << t[1]) if not self.p(self.o["risky"]) else self.expr(INT)
            s = f"let {name}: {self.ttext(t)} = {e};"
        else:
            s = f"let {name} = {self.expr(t)};"
        self.scopes[-1].append((name, t, "let"))
        return s

    def const_decl(self, pad="", local=False):
        name = self.fresh("c")
        t = self.type()

        def make():
            if self.p(.5):
                e = self.expr(t)
                if t[0] == "Uint" and self.p(.4):
                    e = self.lit(INT, 1 << t[1])
                return f"{pad}const {name}: {self.ttext(t)} = {e};"
            return f"{pad}const {name} = {self.expr(t)};"
        s = self.const_expr(make)
        self.scopes[-1].append((name, t, "const"))
        return [s]

    def loop_stmt(self, pad, ind, depth):
        i = self.fresh("i")
        n = self.r.choice([1, 2, 3, 5])
        t = self.r.choice([INT, uint(8)])
        self.scopes[-1].append((i, t, "loop"))
        out = [f"{pad}let {i}: {type_name(t)} = 0;"]
        cond = f"{i} < {n}"
        form = self.r.random()
        if self.p(.25):
            cond = f"({cond}) && {self.prefix(BOOL, 1)}"
        # the counter may be checked inside, with the jump as the very first or last statement
        if form < .12:
            out.append(f"{pad}while {self.expr(BOOL, 1) if self.p(.6) else 'true'} {{")
            out.append(f"{pad}    {self.r.choice(['break;', self.ret()])}")
            if self.p(.5):
                self.loop += 1
                out += self.block(ind + 1, depth)
                self.loop -= 1
        elif form < .24:
            out.append(f"{pad}while {self.r.choice(['true', f'{i} < 9', f'{i} != 7'])} {{")
            out.append(f"{pad}    if {i} {self.r.choice(['<', '!=', '<='])} {n} {{ {i} = {i} + 1; "
                       f"{self.r.choice(['continue; ', ''])}}} else {{ {self.r.choice(['break;', self.ret()])} }}")
            self.loop += 1
            out += self.block(ind + 1, depth)
            self.loop -= 1
        elif form < .34:
            j = self.fresh("i")
            out.append(f"{pad}let {j} = 0;")
            out.append(f"{pad}while {cond} {{")
            out += [f"{pad}    while {j} < 2 {{", f"{pad}        {j} = {j} + 1;"]
            self.loop += 1
            out += self.block(ind + 2, depth)
            self.loop -= 1
            out += [f"{pad}    }}", f"{pad}    {i} = {i} + 1;"]
            if self.p(.3):
                out.append(f"{pad}    continue;")
        elif form < .44:
            # the step comes last, and nothing before it may skip it
            out.append(f"{pad}while {cond} {{")
            old, self.loop = self.loop, 0
            out += self.block(ind + 1, depth)
            self.loop = old
            out.append(f"{pad}    {i} = {i} + 1;")
            if self.p(.3):
                out.append(f"{pad}    {self.r.choice(['continue;', 'break;'])}")
        elif form < .48:
            out.append(f"{pad}while {self.r.choice(['false', f'{i} != 0', f'{i} > {n}'])} {{")
            if self.p(.5):
                out.append(f"{pad}    {self.r.choice(['continue;', 'break;'])}")
        else:
            out.append(f"{pad}while {cond} {{")
            out.append(f"{pad}    {i} = {i} + 1;")
            self.loop += 1
            if self.p(2 * self.o["uninit"]):
                out += self.forgotten(pad + "    ", i, n)
            out += self.block(ind + 1, depth)
            self.loop -= 1
        out.append(pad + "}")
        return out

    def forgotten(self, pad, i, n):
        """A variable without initializer, which is new in every iteration: assigned in some of
        them, and used in the same ones (fine) or others (an error)."""
        v, t = self.fresh("v"), self.type()
        a, b = self.r.randint(1, n), self.r.randint(1, n)
        out = [f"{pad}let {v}: {self.ttext(t)};"]
        first = [f"{pad}if {i} {self.r.choice(['==', '<='])} {a} {{ {v} = {self.expr(t)}; }}"]
        use = [f"{pad}if {i} {self.r.choice(['==', '>='])} {b} {{ let {self.fresh('v')} = {v}; }}"]
        if self.p(.2):
            return out + use + first
        if self.p(.2):
            return out + ["    " * (len(pad) // 4) + "{"] + first + use + [pad + "}"]
        return out + first + use

    def ret(self):
        t = self.fn.ret
        if t == VOID:
            return "return;" if self.p(.8) else f"return {self.expr(VOID, 1)};"
        if t[0] in ("Gen", "Same"):
            return f"return {self.gen_expr(t[1], 2)};"
        if t[0] == "Uint" and self.p(.2):
            return f"return {self.lit(INT, 1 << t[1])};"
        return f"return {self.expr(t)};"

    # ------------------------------------------------------------ generic functions
    def gen_expr(self, g, d):
        """An expression of type Uint(g) in a generic function."""
        vs = [v[0] for v in self.vars() if v[1] in (("Gen", g), ("Same", g))]
        a = self.r.choice(vs)
        if d <= 0:
            return a
        k = self.r.randrange(9)
        b = self.r.choice(vs) if self.p(.5) else str(self.r.choice([0, 1, 1]))
        sub = f"({self.gen_expr(g, d - 1)})"
        if k < 3:
            return f"{sub} {self.r.choice(['+', '-', '*', '&', '|', '^'])} {b}"
        if k == 3:
            return f"{sub} {self.r.choice(['<<', '>>'])} 0"
        if k == 4:
            return f"{self.r.choice('~-+')}{sub}"
        if k == 5:
            return f"{sub} if {a} {self.r.choice(REL + EQ)} {b} else {self.r.choice(vs)}"
        if k == 6:
            return f"({self.r.choice(['0', '1'])} as Uint({g})) + {sub}"
        if k == 7:
            fs = [f for f in self.funs if f.generic and f is not self.fn
                  and f.ret[0] in ("Gen", "Same") and len(f.params) == 1]
            if fs:
                return f"{self.r.choice(fs).name}({self.gen_expr(g, d - 1)})"
        return sub

    def generic(self):
        name = self.fresh("g")
        ng = self.r.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5])
        gens = [self.fresh("N") for _ in range(ng)]
        params = [(self.fresh("p"), ("Gen", g)) for g in gens]
        for _ in range(self.r.randrange(0, 2)):
            params.append((self.fresh("p"), ("Same", self.r.choice(gens))))
        if self.p(.3):
            params.insert(self.r.randrange(len(params) + 1)
                          if params[-1][1][0] == "Gen" else len(params),
                          (self.fresh("p"), self.type()))
        k = self.r.random()
        ret = ("Same", gens[0]) if k < .6 else INT if k < .8 else self.type()
        f = Fun(name, params, ret, True)
        self.fn = f
        self.scopes.append([(n, t, "param") for n, t in params]
                           + [(g, INT, "generic") for g in gens])
        head = ", ".join(f"{n}: {self.ttext(t)}" for n, t in params)
        req = ""
        if self.p(.3):
            last = self.r.choice(gens)
            req = self.r.choice([f" requires {gens[0]} > 0", f" requires {last} <= 128",
                                 f" requires {last} == {self.r.choice(gens)}",
                                 f" requires {last} > {self.r.choice(self.widths) - 1}",
                                 f" requires ({gens[0]} % 2 == 0) || ({gens[0]} > 2)"])
        out = [f"function {name}({head}) -> {self.ttext(ret)}{req} {{"]
        g = self.r.choice(gens)
        for _ in range(self.r.randrange(0, 4)):
            g = self.r.choice(gens)
            k = self.r.randrange(6)
            if k == 0:
                v = self.fresh("v")
                out.append(f"    let {v}: Uint({g}) = {self.gen_expr(g, 1)};")
                self.scopes[-1].append((v, ("Same", g), "let"))
            elif k == 1:
                v = self.fresh("v")
                out.append(f"    let {v} = {self.gen_expr(g, 1)};")
                self.scopes[-1].append((v, ("Same", g), "let"))
            elif k == 2:
                v = self.fresh("c")
                out.append(f"    const {v} = {g} {self.r.choice(['+', '*', '-'])} 1;")
                self.scopes[-1].append((v, INT, "const"))
            elif k == 3:
                vs = [v for v in self.scopes[-1] if v[2] == "let"]
                if vs:
                    out.append(f"    {vs[0][0]} = {self.gen_expr(vs[0][1][1], 1)};")
            elif k == 4:
                i = self.fresh("i")
                vs = [v for v in self.scopes[-1] if v[2] == "let"]
                if vs:
                    out += [f"    let {i} = 0;", f"    while {i} < {g} {{",
                            f"        {i} = {i} + 1;",
                            f"        {vs[0][0]} = {self.gen_expr(vs[0][1][1], 1)};"]
                    if self.p(.3):
                        out.append(f"        if {i} == 3 {{ break; }}")
                    out.append("    }")
            else:
                out += [f"    if {self.gen_expr(g, 0)} == ({self.gen_expr(g, 1)}) {{",
                        f"        {self.ret()}", "    }"]
        if not self.p(self.o["missing_return"]):
            if ret == INT and self.p(.7):
                out.append(f"    return {self.r.choice(gens)} * 2 + 1;" if False else
                           f"    return {self.r.choice(gens)} {self.r.choice('+-*')} 3;")
            else:
                out.append("    " + self.ret())
        out.append("}")
        self.scopes.pop()
        self.fn = None
        self.funs.append(f)
        return out

    def function(self):
        if self.p(self.o["generics"]):
            return self.generic()
        name = self.fresh("f")
        ret = VOID if self.p(self.o["voids"]) else self.type()
        # few functions have many parameters, or many statements
        many = self.r.randint(4, 12) if self.p(.04) else self.r.choice([0, 1, 1, 2, 2, 3])
        params = [(self.fresh("p"), self.type()) for _ in range(many)]
        f = Fun(name, params, ret)
        self.fn = f
        self.scopes.append([(n, t, "param") for n, t in params])
        head = ", ".join(f"{n}: {self.ttext(t)}" for n, t in params)
        req = ""
        if self.p(self.o["requires"]):
            e = self.const_expr(lambda: self.bool_true(1))
            req = f" requires {e}"
        out = [f"function {name}({head}) -> {self.ttext(ret)}{req} {{"]
        self.scopes.append([])
        for _ in range(self.r.randint(8, 30) if self.p(.03) else self.r.randrange(0, 5)):
            out += self.statement(1, 2)
        if not self.p(self.o["missing_return"]) and not (ret == VOID and self.p(.6)):
            out.append("    " + self.ret())
        out.append("}")
        self.scopes.pop()
        self.scopes.pop()
        self.fn = None
        self.funs.append(f)
        return out

    # ------------------------------------------------------------ programs
    def program(self):
        out = []
        self.wc = []
        todo = ["f"] * self.r.randint(0 if self.o["functions"] == 0 else 1,
                                      self.o["functions"] or 0) + \
            ["c"] * self.r.randint(0, self.o["consts"])
        self.r.shuffle(todo)
        if self.p(.3) and self.o["consts"]:
            w = self.r.choice(self.widths)
            n = self.fresh("W")
            out.append(f"const {n} = {w};")
            self.wc.append((n, INT, "const", w))
            self.scopes[0].append((n, INT, "const"))
        for k in todo:
            if k == "f":
                out += self.function()
            else:
                out += self.const_decl()
                if self.p(self.o["static"]):
                    e = self.const_expr(lambda: self.bool_true(2))
                    out.append(f"static_assert({e});")
        return "\n".join(out) + "\n"

    def query(self):
        """A constant that calls one of the functions with fresh arguments."""
        fs = self.funs
        if not fs:
            return None
        f = self.r.choice(fs)
        t = None
        if f.generic and f.ret[0] in ("Gen", "Same"):
            t = uint(self.r.choice(self.widths if self.p(.7) else WIDTHS))
        c = self.const_expr(lambda: self.call_of(f, 1, t))
        return f"const {self.fresh('q')} = {c};"

    def constant(self):
        name = self.fresh("k")
        t = self.type()
        return self.const_expr(lambda: f"const {name} = {self.expr(t)};")


IMAXP = (1 << 127) - 1
