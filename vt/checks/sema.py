"""C05-C09, C12: programs run through the compiler and through the reference semantics."""
import re

from ..core import Check
from .. import gen_prog, mutate_prog as M, ref_sema, sema_case as S
from ..gen_prog import WIDTHS


class SemaCheck(Check):
    oracle = ("oracle: independent name lookup, typing and evaluation of the same source "
              "(vt/ref_sema.py): acceptance, error code, and the type and value of every constant")
    quick, thorough = 40000, 1500000

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def compare(self, ctx, src, widths=None, want=None, kind="", check_cmp=False):
        if want is None:
            want, _ = S.reference(src, widths)
        if want is None:
            ctx.stats["no_opinion"] += 1
            return None
        ctx.stats["evaluations"] += 1
        ctx.stats.hit("outcome:" + repr(want))
        ctx.stats.saw(re.sub(r"\s+", " ", src), widths)
        got, raw = S.actual(ctx, src, widths)
        at = {} if widths is None else {"widths": widths}
        if want.key() != got.key():
            ctx.fail(f"expected {want} at {want.pos}, got {got} at {got.pos}", source=src, how=kind, **at)
        if want.consts is not None:
            ctx.stats["constants_compared"] += len(want.consts)
            d = S.diff_consts(want.consts, got.consts)
            if d:
                ctx.fail(d, source=src, how=kind, **at)
        elif check_cmp and S.cmp_differs(want, got):
            ctx.fail(f"failed comparison is reported as {got.cmp}, expected {want.cmp}", source=src,
                     how=kind, **at)
        if ctx.stats["evaluations"] % 997 == 1:
            ctx.stats.sample({"source": src[:600], "outcome": repr(want)})
        return want

    def grow(self, ctx, src, lines):
        """Appends those lines that keep the program accepted; returns it and the failing variants."""
        want, _ = S.reference(src)
        bad = []
        if want is None or want.consts is None:
            return src, want, bad
        for line in lines:
            if line is None:
                continue
            w, _ = S.reference(src + line + "\n")
            if w is None:
                ctx.stats["no_opinion"] += 1
            elif w.consts is None:
                bad.append((src + line + "\n", w))
            else:
                src, want = src + line + "\n", w
        return src, want, bad

    def finish(self, stats):
        if stats["evaluations"] < 200:
            return ["too few programs had a reference outcome"]
        return []


# ------------------------------------------------------------------ C05

SMALL_OPTS = dict(depth=1, functions=3, consts=3, asserts=False, risky=0, uninit=0, requires=.1,
                  static=.1, missing_return=0, voids=.1)


class C05(SemaCheck):
    id = "C05"
    rule = ("one generated program per case, then its names mutated: uses and declarations renamed to "
            "other, undeclared or builtin names, declarations reordered, statements moved, uses added; "
            "distinct by source text; " + SemaCheck.oracle)

    def case(self, ctx, i):
        rng = ctx.rng
        g = gen_prog.Gen(rng, **SMALL_OPTS)
        src = g.program()
        if rng.random() < .5:
            q = g.query()
            src += (q or "") + "\n"
        k = i % 10
        if k == 0:
            return self.compare(ctx, src, kind="unchanged")
        if k == 1:
            return self.compare(ctx, M.reorder(rng, src), kind="reordered")
        src = M.mutate_names(rng, src)
        w = self.compare(ctx, src, kind="mutated")
        if w is not None and w.code in S.NAME_CODES:
            ctx.stats["rejected_for_a_name"] += 1


# ------------------------------------------------------------------ C06

class C06(SemaCheck):
    id = "C06"
    rule = ("one generated program per case, then types, literals, operators, operands, calls and "
            "statements mutated; distinct by source text; " + SemaCheck.oracle)

    def case(self, ctx, i):
        rng = ctx.rng
        g = gen_prog.Gen(rng, **dict(SMALL_OPTS, depth=rng.choice([1, 2, 3]), voids=.2))
        src = g.program()
        for _ in range(2):
            q = g.query()
            if q and rng.random() < .6:
                src += q + "\n"
        if i % 12:
            src = M.mutate_types(rng, src)
        w = self.compare(ctx, src, kind="mutated" if i % 12 else "unchanged")
        if w is not None and w.code and w.code not in S.NAME_CODES | S.EVAL_CODES | {"parse", "lex"}:
            ctx.stats["rejected_for_a_type"] += 1


# ------------------------------------------------------------------ C07

OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!="]


def boundary(rng, w):
    """Interesting values of Uint(w)."""
    top = (1 << w) - 1
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, top, top >> 1, (top >> 1) + 1])
    if k == 1:
        return max(0, top - rng.randrange(4))
    if k == 2:
        return min(top, w + rng.choice([-1, 0, 1]))
    if k == 3:
        return min(top, 1 << rng.randrange(w))
    if k == 4:
        return min(top, (1 << rng.randrange(w + 1)) - 1)
    if k == 5:
        return rng.randrange(min(top, 200) + 1)
    if k == 6:
        return min(top, rng.choice([1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1 << 127, (1 << 127) - 1,
                                    1 << 32, (1 << 32) - 1, 1 << 31]))
    return rng.randrange(top + 1)


def ilit(v):
    if v >= 0:
        return str(v)
    if v == -(1 << 127):
        return f"(-{(1 << 127) - 1} - 1)"
    return f"(-{-v})"


def int_value(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, -1, 2, -2, 127, 128, 129, -128])
    if k == 1:
        return rng.choice([1, -1]) * ((1 << rng.choice([31, 32, 62, 63, 64, 65, 126])) + rng.choice([-1, 0, 1]))
    if k == 2:
        return (1 << 127) - 1 - rng.randrange(3)
    if k == 3:
        return -(1 << 127) + rng.randrange(3)
    if k == 4:
        return rng.randrange(-200, 200)
    return rng.randrange(-(1 << 127), 1 << 127)


def operand(rng, t, small=False):
    """Text of an operand of type t, without unary problems."""
    if t == "Bool":
        return rng.choice(["true", "false"])
    if t == "Int":
        return ilit(int_value(rng))
    v = rng.randrange(1 << t) if small else boundary(rng, t)
    if v >> 127:                               # larger than any literal may be
        return f"(~({(1 << t) - 1 - v} as Uint({t})))"
    return f"({v} as Uint({t}))"


def tname(t):
    return t if isinstance(t, str) else f"Uint({t})"


class C07(SemaCheck):
    id = "C07"
    rule = ("cases: every operator on all pairs of operands of Uint(1..4), operators, conversions and "
            "prefix operators on boundary operands of all widths, Int at the ends of its range, mixed "
            "Int/Uint, as folded constants and through a function with parameters; random nested "
            "constant expressions; distinct by source text; " + SemaCheck.oracle)

    def table(self):
        """All (width, op) for widths 1..4."""
        return [(w, op) for w in (1, 2, 3, 4) for op in OPS]

    def case(self, ctx, i):
        rng = ctx.rng
        tab = self.table()
        if i < len(tab):
            return self.small(ctx, *tab[i])
        k = i % 4
        if k == 0:
            g = gen_prog.Gen(rng, functions=0, consts=3, static=.2, depth=rng.choice([2, 3, 4]),
                             risky=rng.choice([0, .1, .3]))
            lines = [g.constant() for _ in range(6)]
            return self.many(ctx, g.program() if rng.random() < .3 else "const zero = 0;\n", lines, "nested")
        if k == 1:
            return self.many(ctx, "const zero = 0;\n", [f"const r{n} = {self.one(rng)};" for n in range(14)], "operators")
        if k == 2:
            return self.through_function(ctx)
        return self.conversions(ctx)

    def many(self, ctx, src, lines, kind):
        src, want, bad = self.grow(ctx, src, lines)
        self.compare(ctx, src, want=want, kind=kind)
        for s, w in bad[:4]:
            self.compare(ctx, s, want=w, kind=kind + " failing")

    def small(self, ctx, w, op):
        lines, n = [], 0
        for a in range(1 << w):
            for b in range(1 << w):
                lines.append(f"const r{n} = ({a} as Uint({w})) {op} ({b} as Uint({w}));")
                n += 1
        good = []
        for line in lines:
            want, _ = S.reference(line)
            if want.consts is None:
                self.compare(ctx, line, want=want, kind="table failing")
            else:
                good.append(line)
        self.compare(ctx, "\n".join(good) + "\n", kind="table")

    def one(self, rng):
        k = rng.randrange(10)
        w = rng.choice(WIDTHS) if rng.random() < .7 else rng.randrange(1, 129)
        if k < 5:
            a, b = operand(rng, w), operand(rng, w)
            op = rng.choice(OPS)
            if op in ("<<", ">>") and rng.random() < .7:
                b = f"({min(rng.randrange(w), (1 << w) - 1)} as Uint({w}))"
            if op in ("<<", ">>") and rng.random() < .3:
                b = str(rng.choice([0, w - 1, w, w + 1, rng.randrange(w)]))
            return f"{a} {op} {b}"
        if k < 7:
            return f"{ilit(int_value(rng))} {rng.choice(OPS)} {ilit(int_value(rng))}"
        if k == 7:
            v = str(boundary(rng, w)) if rng.random() < .8 else ilit(int_value(rng))
            x = [operand(rng, w), v]
            rng.shuffle(x)
            return f"{x[0]} {rng.choice(OPS)} {x[1]}"
        if k == 8:
            return f"{rng.choice('+-~')}{operand(rng, w)}"
        return rng.choice([f"-{ilit(int_value(rng))}", f"+{ilit(int_value(rng))}",
                           f"!{operand(rng, 'Bool')}", f"~{ilit(int_value(rng))}",
                           f"{operand(rng, 'Bool')} {rng.choice(['&&', '||', '==', '!=', '&', '<'])} "
                           f"{operand(rng, 'Bool')}"])

    def conversions(self, ctx):
        rng = ctx.rng
        lines = []
        for n in range(10):
            a = rng.choice(["Int", "Bool", rng.choice(WIDTHS), rng.choice(WIDTHS)])
            b = rng.choice(["Int", "Bool", rng.choice(WIDTHS), rng.choice(WIDTHS),
                            a if a not in ("Int", "Bool") else 7])
            x = operand(rng, a)
            k = rng.randrange(4)
            if k == 0:
                lines.append(f"const r{n} = {x} as {tname(b)};")
            elif k == 1:
                lines.append(f"const r{n}: {tname(b)} = {x};")
            elif k == 2:
                lines.append(f"const r{n} = {x} if {operand(rng, 'Bool')} else {operand(rng, b)};")
            else:
                lines.append(f"const r{n}: {tname(b)} = {operand(rng, b)} {rng.choice(OPS)} "
                             f"{operand(rng, b)};")
        self.many(ctx, "const zero = 0;\n", lines, "conversions")

    def through_function(self, ctx):
        """The same operator on values the compiler does not know when it compiles the function."""
        rng = ctx.rng
        w = rng.choice(WIDTHS) if rng.random() < .7 else rng.randrange(1, 129)
        k = rng.randrange(6)
        A, B = (w, w) if k < 3 else rng.choice([("Int", "Int"), ("Bool", "Bool"), (w, "Int"), ("Int", w)])
        op = rng.choice(OPS) if A != "Bool" else rng.choice(["&&", "||", "==", "!="])
        if k == 5:
            body = rng.choice([f"-a", "+a", "~a", "!a", f"a as {tname(B)}", "a if a == b else b",
                               f"a as Uint({rng.choice(WIDTHS)})"])
        elif k == 4:
            body = f"a {op} {operand(rng, B)}"
        else:
            body = f"a {op} b"
        ret = "Bool" if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||") and k != 5 else \
            tname(A if A != "Int" else B)
        if k == 5:
            for r in [tname(A), "Int", tname(B)] + [f"Uint({x})" for x in WIDTHS]:
                ret = r
                want, _ = S.reference(f"function f(a: {tname(A)}, b: {tname(B)}) -> {r} {{ return {body}; }}")
                if want is not None and want.consts is not None:
                    break
        src = f"function f(a: {tname(A)}, b: {tname(B)}) -> {ret} {{\n    return {body};\n}}\n"
        lines = []
        for n in range(12):
            y = operand(rng, B)
            if op in ("<<", ">>") and B not in ("Int", "Bool") and rng.random() < .8:
                y = f"({min(rng.randrange(w + 1), (1 << w) - 1)} as Uint({w}))"
            lines.append(f"const r{n} = f({operand(rng, A)}, {y});")
        self.many(ctx, src, lines, "through a function")


# ------------------------------------------------------------------ C08

class C08(SemaCheck):
    id = "C08"
    quick, thorough = 30000, 1000000
    rule = ("one generated program with functions per case (lets, assignments, if/else, while, break, "
            "continue, early returns, nested calls), queried with several argument lists; distinct by "
            "source text; " + SemaCheck.oracle)

    def case(self, ctx, i):
        rng = ctx.rng
        g = gen_prog.Gen(rng, generics=.1, risky=rng.choice([0, 0, .1]), uninit=.03, static=.05,
                         missing_return=.01, asserts=i % 4 == 0, depth=rng.choice([1, 2, 3]),
                         functions=rng.choice([1, 2, 3, 5]))
        src = g.program()
        src, want, bad = self.grow(ctx, src, [g.query() for _ in range(6)])
        if want is None:
            ctx.stats["no_opinion"] += 1
            return
        self.compare(ctx, src, want=want, kind="functions")
        for s, w in bad[:1]:
            self.compare(ctx, s, want=w, kind="functions failing")


# ------------------------------------------------------------------ C09

class C09(SemaCheck):
    id = "C09"
    rule = ("one generated program per case with statements that may fail injected at random places "
            "(executed or not), and queries; distinct by source text; " + SemaCheck.oracle
            + ", and the operands of the failed comparison")

    def case(self, ctx, i):
        rng = ctx.rng
        g = gen_prog.Gen(rng, generics=.1, risky=rng.choice([0, .2, .5]), uninit=.1, static=.1,
                         missing_return=rng.choice([0, .2]), depth=rng.choice([1, 2]),
                         functions=rng.choice([1, 2, 3]), consts=2)
        src = g.program()
        qs = [g.query() for _ in range(4)]
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            src = M.inject_failure(rng, src)
        src, want, bad = self.grow(ctx, src, qs)
        if want is None:
            ctx.stats["no_opinion"] += 1
            return
        self.compare(ctx, src, want=want, kind="base", check_cmp=True)
        for s, w in bad[:3]:
            w = self.compare(ctx, s, want=w, kind="failing query", check_cmp=True)
            if w is not None and w.code in S.EVAL_CODES:
                ctx.stats["failing_evaluations"] += 1


# ------------------------------------------------------------------ C12

class C12(SemaCheck):
    id = "C12"
    rule = ("one generated program with generic functions per case, called with arguments of several "
            "widths and, in other cases, instantiated for a chosen width; distinct by source text and "
            "width; " + SemaCheck.oracle)

    def case(self, ctx, i):
        rng = ctx.rng
        g = gen_prog.Gen(rng, generics=.8, risky=rng.choice([0, 0, .1]), uninit=.03, static=.05,
                         requires=.3, missing_return=.02, depth=rng.choice([1, 2]),
                         functions=rng.choice([1, 2, 3, 4]), consts=2, few_widths=rng.random() < .8)
        src = g.program()
        if rng.random() < .2:
            src = (M.mutate_types if rng.random() < .6 else M.mutate_names)(rng, src)
        if i % 3 == 0:
            w = rng.choice(WIDTHS + [0, 129])
            return self.compare(ctx, src, widths=w, kind="instantiated")
        src, want, bad = self.grow(ctx, src, [g.query() for _ in range(6)])
        if want is None:
            ctx.stats["no_opinion"] += 1
            return
        if rng.random() < .3:
            src, want = M.reorder(rng, src), None
        self.compare(ctx, src, want=want, kind="called")
        for s, w in bad[:2]:
            self.compare(ctx, s, want=w, kind="called, failing")
