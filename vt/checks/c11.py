"""C11: the checked, concrete and abstract forms of every operation agree with the language."""
from .. import ref_sema as R
from ..core import Check, problem_of

BINARY = ["logical_and", "logical_or", "equals", "not_equals", "less_than", "greater_than", "less_or_equal",
          "greater_or_equal", "binary_plus", "binary_minus", "multiplication", "division", "remainder",
          "shift_left", "shift_right", "bitwise_and", "bitwise_or", "bitwise_xor"]
UNARY = ["unary_plus", "unary_minus", "logical_not", "bitwise_not"]
OTHER = ["if_expression", "function_call", "literal", "id"]
WIDTHS = [1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128]
ANY = None                                           # an unknown value


def short(op):
    return op.replace("binary_", "").replace("unary_", "")


def letter(t):
    return f"U{t[1]}" if t[0] == "Uint" else t[0][0]


def some_type(rng):
    k = rng.randrange(10)
    if k < 1:
        return R.VOID
    if k < 3:
        return R.BOOL
    if k < 6:
        return R.INT
    return R.uint(rng.choice(WIDTHS) if rng.random() < .8 else rng.randrange(1, 129))


def some_value(rng, t):
    if t == R.VOID:
        return 0
    if t == R.BOOL:
        return rng.randrange(2)
    if t == R.INT:
        k = rng.randrange(8)
        if k < 3:
            return rng.randrange(-3, 4)
        if k < 4:
            return rng.choice([R.IMAX, R.IMIN, R.IMAX - 1, R.IMIN + 1])
        if k < 6:
            return max(R.IMIN, min(R.IMAX, rng.choice([-1, 1]) * ((1 << rng.choice(WIDTHS)) + rng.randrange(-2, 2))))
        return rng.randrange(-(1 << rng.randrange(128)), 1 << rng.randrange(128))
    m = 1 << t[1]
    k = rng.randrange(8)
    if k < 3:
        return rng.randrange(4) % m
    if k < 5:
        return (m - 1 - rng.randrange(3)) % m
    if k < 6:
        return (m // 2 + rng.randrange(-1, 2)) % m
    return rng.randrange(m)


def raw(t, v):
    """As the 128-bit two's complement number that a value holds."""
    v = int(v)
    return v - (1 << 128) if t[0] == "Uint" and v >> 127 else v


def field(t, v):
    return [letter(t), "?" if v is ANY else str(raw(t, v))]


def shown(t, v):
    return [letter(t), None if v is ANY else raw(t, v)]


def tried(f):
    """(value, None) or (None, the error's name)."""
    try:
        return f(), None
    except R.SemaError as e:
        return None, e.code
    except R.EvalError as e:
        return None, e.detail


def unary(op, t, v):
    """Expected outcomes: the type or error, the value or error."""
    if op not in UNARY:
        return (None, "invalid_operator"), (None, "type_error")
    ty = tried(lambda: R.unary_type(short(op), t))
    if ty[1]:
        return ty, (None, "type_error")
    if v is ANY:
        return ty, (ANY, None)
    return ty, tried(lambda: R.unary_value(short(op), t, v))


def binary(op, a, x, b, y):
    if op not in BINARY:
        return (None, "invalid_operator"), (None, "type_error")
    ty = tried(lambda: R.binary_type(a, short(op), b))
    if ty[1]:
        return ty, (None, "type_error")
    if x is ANY or y is ANY:
        return ty, (ANY, None)
    return ty, tried(lambda: R.binary_value(a, x, short(op), b, y))


class C11(Check):
    id = "C11"
    targets = ("core",)
    rule = ("batches of 40 operations called directly: every unary and binary operator (and what is no operator), if, "
            "conversions of both kinds, common types, masks, assert with any arguments, three-valued logic, over "
            "operands of all types with known and unknown values; distinct by operation; oracle: the type rules and "
            "arithmetic of ref_sema; results on unknown operands must hold for every value sampled for them")

    def cases(self, tier):
        return 200000 if tier == "quick" else 5000000

    def case(self, ctx, i):
        rng = ctx.rng
        ops, judges = [], []
        for _ in range(40):
            k = rng.choice("uubbbbbbbbbiiivvtcyar3")
            op, judge = getattr(self, "op_" + k)(rng)
            ops.append([k] + op)
            judges.append(judge)
            ctx.stats.hit("op:" + k)
            ctx.stats.saw(k, *op)
        script = "ops\n" + "".join("\t".join(o).replace("?", "%3f") + "\n" for o in ops)
        r = ctx.ask("core", script, name="core")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", script=script)
        if r.get("unfreed"):
            ctx.fail("memory is not returned", script=script)
        got = r["result"]["ops"]
        if len(got) != len(ops):
            raise AssertionError("answers")
        for o, g, judge in zip(ops, got, judges):
            ctx.stats["evaluations"] += 1
            what = judge(g, rng)
            if what:
                ctx.fail(f"{what}: {' '.join(o)} gives {g}", script=script, operation=o, answer=g)

    @staticmethod
    def some(rng, known=.75, t=None):
        t = t or some_type(rng)
        return t, some_value(rng, t) if rng.random() < known else ANY

    @staticmethod
    def related(rng, a):
        """A type that often fits to a."""
        k = rng.random()
        if k < .5:
            return a
        if k < .75 and a != R.BOOL and a != R.VOID:
            return R.INT if a != R.INT else R.uint(rng.choice(WIDTHS))
        return some_type(rng)

    def judge(self, ty, val, g, samples, has_concrete):
        """samples: calls giving (type, value or error) for values put in place of the unknown ones."""
        if g[0] != (letter(ty[0]) if ty[1] is None else "E " + ty[1]):
            return f"the type is not {ty[1] or R.type_name(ty[0])}"
        if has_concrete:
            want = "E " + val[1] if val[1] else shown(ty[0], val[0])
            if g[2] != want:
                return f"the value is not {want}"
            if g[1] != want:
                return f"the abstract value is not {want}"
            return None
        if ty[1]:
            return None if g[1] == "E type_error" else "the type error is missing"
        for s in samples:
            v, e = s()
            if isinstance(g[1], str):
                if e is None:
                    return "an error is claimed but there are values without"
            elif g[1][0] != letter(ty[0]):
                return "the type of the abstract value is wrong"
            elif g[1][1] is not None and e is None and shown(ty[0], v) != g[1]:
                return "the abstract value does not hold for all values"
        return None

    def op_u(self, rng):
        t, v = self.some(rng)
        op = rng.choice(UNARY if rng.random() < .95 else OTHER + BINARY)

        def judge(g, rng):
            ty, val = unary(op, t, v)
            return self.judge(ty, val, g, [lambda: unary(op, t, some_value(rng, t))[1]] * 6, v is not ANY)
        return [op] + field(t, v), judge

    def op_b(self, rng):
        a, x = self.some(rng)
        b, y = self.some(rng, t=self.related(rng, a))
        if rng.random() < .2 and b[0] != "Void":
            y = 0 if rng.random() < .5 else y
        op = rng.choice(BINARY if rng.random() < .97 else OTHER + UNARY)

        def judge(g, rng):
            ty, val = binary(op, a, x, b, y)

            def sample():
                p = some_value(rng, a) if x is ANY else x
                q = some_value(rng, b) if y is ANY else y
                return binary(op, a, p, b, q)[1]
            if x is not ANY and y is ANY and not ty[1]:
                # the right operand of a short-circuiting operator need not be known
                if (op, bool(x)) in (("logical_and", False), ("logical_or", True)):
                    return None if g[1] == ["B", int(x)] else "the short-circuited value is not known"
            if y == 0 and x is ANY and op in ("division", "remainder") and not ty[1]:
                return None if isinstance(g[1], str) else "division by zero is not detected"
            return self.judge(ty, val, g, [sample] * 8, x is not ANY and y is not ANY)
        return [op] + field(a, x) + field(b, y), judge

    def op_i(self, rng):
        a, x = self.some(rng)
        b, y = self.some(rng, t=self.related(rng, a))
        c, z = self.some(rng, t=R.BOOL if rng.random() < .9 else None)

        def value(x, z, y):
            t = R.common(a, b)
            v, s = (x, a) if z else (y, b)
            return R.convert(v, s, t)

        def judge(g, rng):
            def types():
                if c != R.BOOL:
                    raise R.SemaError("condition_not_bool")
                return R.common(a, b)
            ty = tried(types)
            val = (None, "type_error") if ty[1] else (ANY, None)
            known = ANY not in (x, y, z)
            if known and not ty[1]:
                val = tried(lambda: value(x, z, y))
            if not ty[1] and z is not ANY and not known and (x if z else y) is not ANY:
                v = tried(lambda: value(x, z, y))
                want = "E " + v[1] if v[1] else shown(ty[0], v[0])
                return None if g[1] == want else f"the value of the chosen arm is not {want}"

            def sample():
                p, q, s = (some_value(rng, t) if v is ANY else v for t, v in ((a, x), (b, y), (c, z)))
                return tried(lambda: value(p, s, q))
            return self.judge(ty, val, g, [sample] * 8, known)
        return field(a, x) + field(c, z) + field(b, y), judge

    def op_v(self, rng, truncating=False):
        a, x = self.some(rng)
        b = self.related(rng, a)
        if a == R.INT and rng.random() < .5:
            b = R.uint(rng.choice(WIDTHS))
            if x is not ANY and rng.random() < .5:
                x = max(R.IMIN, min(R.IMAX, rng.choice([0, 1 << b[1]]) + rng.randrange(-2, 3)))

        def judge(g, rng):
            if not truncating:
                if g[0] != R.converts(a, b):
                    return "convertibility is wrong"
                g = g[1:]
            if x is ANY:
                want = [letter(b), None] if R.converts(a, b) else "E type_error"
                return None if g == [want] else f"the conversion of an unknown value is not {want}"
            if truncating and R.converts(a, b):
                v = (x % (1 << b[1]) if b[0] == "Uint" else x, None)
            else:
                v = tried(lambda: R.convert(x, a, b))
            want = "E " + v[1] if v[1] else shown(b, v[0])
            return None if g == [want, want] else f"the conversion does not give {want}"
        return field(a, x) + [letter(b)], judge

    def op_t(self, rng):
        return self.op_v(rng, True)

    def op_c(self, rng):
        a = some_type(rng)
        b = self.related(rng, a)

        def judge(g, rng):
            v, e = tried(lambda: R.common(a, b))
            want = "E " + e if e else letter(v)
            return None if g == [want] else f"the common type is not {want}"
        return [letter(a), letter(b)], judge

    def op_y(self, rng):
        a = some_type(rng)
        b = self.related(rng, a)

        def judge(g, rng):
            mask = {"Void": 0, "Bool": 1, "Int": -1}.get(a[0])
            if mask is None:
                mask = raw(a, (1 << a[1]) - 1)
            want = [mask, a[0] in ("Int", "Uint"), a[0] == "Uint", a[1] if a[0] == "Uint" else 0, a == b]
            return None if g == want + [R.type_name(a)] else f"facts of the type are not {want}"
        return [letter(a), letter(b)], judge

    def op_a(self, rng):
        n = rng.choice([0, 1, 1, 1, 1, 1, 1, 2, 3])
        args = [self.some(rng, t=R.BOOL if rng.random() < .7 else None) for _ in range(n)]

        def judge(g, rng):
            ty = ("E wrong_number_of_arguments" if n != 1 else
                  "E wrong_argument_type" if args[0][0] != R.BOOL else "V")
            known = all(v is not ANY for _, v in args)
            if ty != "V":
                val = "E type_error"
            else:
                val = ["V", None] if not known else ["V", 0] if args[0][1] else "E assertion_fail"
            want = [ty, ty, val] + ([ty, val] if known else [])
            return None if g == want else f"assert does not give {want}"
        return [f for t, v in args for f in field(t, v)], judge

    def op_r(self, rng):
        t, v = self.some(rng, known=1)

        def judge(g, rng):
            want = "Void" if t == R.VOID else ["false", "true"][v] if t == R.BOOL else str(v)
            return None if g == [want] else f"the value is not printed as {want}"
        return field(t, v), judge

    def op_3(self, rng):
        x, y = rng.randrange(3), rng.randrange(3)

        def judge(g, rng):
            opts = [(0,), (1,), (0, 1)]

            def lift(f):
                out = {f(p, q) for p in opts[x] for q in opts[y]}
                return out.pop() if len(out) == 1 else 2
            want = [lift(lambda p, q: 1 - p), lift(lambda p, q: p & q), lift(lambda p, q: p | q),
                    lift(lambda p, q: int(p == q)), lift(lambda p, q: int(p != q))]
            return None if g == want else f"three-valued logic does not give {want}"
        return [str(x), str(y)], judge

    def finish(self, stats):
        return [f"no operation of kind {k}" for k in "ubivtcyar3" if not stats.cover["op:" + k]]


CHECK = C11()
