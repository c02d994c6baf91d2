"""C02: integer literals and the printing of 128-bit numbers."""
import re

from ..core import Check, problem_of
from .. import ref_lex

MAX = (1 << 127) - 1


def number(rng):
    k = rng.randrange(9)
    if k == 0:
        return rng.choice([0, 1, 2, 7, 8, 9, 10, 15, 16, 63, 64, 99, 100, 127, 128, 129, 255, 256, 999, 1000])
    if k <= 2:
        return max(0, (1 << rng.randrange(1, 132)) + rng.choice([-2, -1, 0, 0, 1, 2]))
    if k == 3:
        return max(0, 10 ** rng.randrange(1, 41) + rng.choice([-1, 0, 1]))
    if k == 4:
        return rng.randrange(10 ** rng.randrange(1, 20)) * 10 ** rng.randrange(1, 20) + rng.randrange(100)
    if k == 5:
        return rng.choice([MAX, MAX + 1, MAX - 1, (1 << 128) - 1, 1 << 128, (1 << 128) + 1, 1 << 129,
                           10 ** 19, 10 ** 18, 10 ** 38, 10 ** 39])
    if k == 6:
        return rng.getrandbits(rng.randrange(1, 140))
    if k == 7:
        return rng.getrandbits(rng.randrange(60, 70)) << rng.randrange(64)
    return int("".join(rng.choice("0019") for _ in range(rng.randrange(1, 40))))


def spell(rng, v, base=None):
    base = base or rng.choice([2, 8, 10, 16, 16])
    zeros = "0" * rng.choice([0, 0, 0, 1, 3])
    if base == 2:
        return "0b" + zeros + f"{v:b}"
    if base == 8:
        return "0" + zeros + f"{v:o}"
    if base == 16:
        return "0x" + zeros + "".join(c.upper() if rng.random() < .4 else c for c in f"{v:x}")
    return str(v)


class C02(Check):
    id = "C02"
    rule = ("literals of all bases (powers of two and ten and their neighbours, random digits, limits "
            "of 127 and 128 bits, mixed digit case, leading zeros) through the literal parsers and "
            "printers, as constants, widths, deep inside expressions, as annotation arguments, and "
            "printed in diagnostics; distinct by literal; oracle: Python integers")

    def cases(self, tier):
        return 12000 if tier == "quick" else 300000

    def ask(self, ctx, mode, src, flags, cpu=10):
        r = ctx.ask(mode, src, flags, cpu)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        return r["result"]

    def case(self, ctx, i):
        k = i % 6
        ctx.stats.hit(["numbers", "constants", "limits", "widths", "diagnostics", "annotations"][k])
        [self.numbers, self.constants, self.limits, self.widths, self.diagnostics,
         self.annotations][k](ctx)

    def numbers(self, ctx):
        rng = ctx.rng
        lits = [spell(rng, number(rng)) for _ in range(60)]
        rows = self.ask(ctx, "num", "\n".join(lits), "-")["rows"]
        for lit, row in zip(lits, rows):
            v = ref_lex.int_value(lit)
            ctx.stats["evaluations"] += 1
            ctx.stats.saw(lit)
            want = [v >> 64, v & (2 ** 64 - 1), str(v)] if v < 1 << 128 else [None] * 3
            want += [v, str(v)] if v <= MAX else [None, None]
            if list(row) != want:
                ctx.fail(f"literal {lit} is read and printed as {row}, expected {want}", literal=lit)

    def constants(self, ctx):
        rng = ctx.rng
        lits = [spell(rng, min(number(rng), MAX)) for _ in range(12)]
        src = ""
        want = {}
        for n, lit in enumerate(lits):
            v = ref_lex.int_value(lit)
            k = rng.randrange(4)
            if k == 0:
                src += f"const c{n} = {lit};\n"
            elif k == 1:
                src += f"const c{n} = -{lit};\n"
                v = -v
            elif k == 2:
                w = max(1, v.bit_length()) + rng.randrange(0, 129 - max(1, v.bit_length()))
                src += f"const c{n}: Uint({w}) = {lit};\n"
            else:
                src += f"const c{n} = ({lit}) if {lit} == {lit} else 0;\n"
            want[f"c{n}"] = v
        r = self.ask(ctx, "bms", src, "v")
        if r["stage"] != "ok":
            ctx.fail(f"program of representable literals rejected: {r}", source=src)
        for n, lit in enumerate(lits):
            ctx.stats["evaluations"] += 1
            ctx.stats.saw("const", lit)
            if r["consts"][f"c{n}"][1] != want[f"c{n}"]:
                ctx.fail(f"constant c{n} is {r['consts'][f'c{n}']}, expected {want[f'c{n}']}", source=src)

    def limits(self, ctx):
        rng = ctx.rng
        v = number(rng)
        if rng.random() < .5:
            v = MAX + rng.choice([1, 1, 2, 0, 0, -1, rng.getrandbits(20), rng.getrandbits(128)])
        if rng.random() < .1:
            v = rng.getrandbits(rng.randrange(130, 700))
        lit = spell(rng, v)
        form = rng.choice(["const a = {};", "const a: Int = {};", "const a = -{};",
                           "function f() -> Int {{ return {}; }} const b = f();",
                           "const a = 1 if true else {};", "function f(a: Uint({})) -> Int {{ return 1; }}",
                           "static_assert({0} == {0});", "const a: Uint(128) = {};",
                           "function f() -> Bool {{ while {} == 0 {{ }} return true; }}",
                           "function f() -> Int {{ let a = 0; a = {}; return a; }} const b = f();"])
        src = form.format(lit)
        r = self.ask(ctx, "bms", src, "vd")
        ctx.stats["evaluations"] += 1
        ctx.stats.saw("limit", src)
        if v > MAX:
            ctx.stats["too_large"] += 1
            if r["stage"] != "analyze" or r["code"] != "invalid_integer_literal":
                ctx.fail(f"literal of value {v} is not rejected as too large: {r.get('code')} {r['stage']}",
                         source=src)
        elif "Uint({})" in form:
            ok = 1 <= v <= 128
            if (r["stage"] == "ok") != ok or (not ok and r["code"] != "width_invalid"):
                ctx.fail(f"width {v}: {r['stage']} {r.get('code')}", source=src)
        elif r["stage"] != "ok":
            ctx.fail(f"literal of value {v} rejected: {r.get('code')}", source=src)
        else:
            got = r["consts"].get("b" if " b " in src else "a")
            if got is not None and "if true" not in src and got[1] != (-v if "-{" in form else v):
                ctx.fail(f"literal of value {v} yields {got}", source=src)

    def widths(self, ctx):
        rng = ctx.rng
        src, want = "", {}
        for n in range(6):
            w = rng.choice([1, 2, 3, 7, 8, 9, 31, 32, 63, 64, 65, 100, 127, 128, rng.randrange(1, 129)])
            lit = spell(rng, w)
            src += rng.choice([f"const c{n}: Uint({lit}) = 1;\n", f"const c{n} = 1 as Uint({lit});\n",
                               f"function f{n}(a: Uint({lit})) -> Uint({lit}) {{ return a; }}\n"
                               f"const c{n} = f{n}(1);\n",
                               f"function f{n}() -> Uint({lit}) {{ let x: Uint({lit}) = 1; return x; }}\n"
                               f"const c{n} = f{n}();\n"])
            want[f"c{n}"] = [f"Uint({w})", 1]
            ctx.stats["evaluations"] += 1
            ctx.stats.saw("width", lit)
        r = self.ask(ctx, "bms", src, "v")
        if r["stage"] != "ok":
            ctx.fail(f"program with valid widths rejected: {r.get('code')}", source=src)
        for k, v in want.items():
            if list(r["consts"][k]) != v:
                ctx.fail(f"{k} is {r['consts'][k]}, expected {v}", source=src)

    def diagnostics(self, ctx):
        rng = ctx.rng
        a, b = min(number(rng), MAX), min(number(rng), MAX)
        sa, sb = rng.choice([1, -1]), rng.choice([1, -1])
        if a * sa == b * sb:
            return
        la, lb = spell(rng, a), spell(rng, b)
        if rng.random() < .3:
            # the most negative Int and Uint values above its range
            if rng.random() < .5:
                src = f"const a = -{MAX} - 1; static_assert(a == {lb});"
                want = f"{-MAX - 1} == {b}"
            else:
                x = rng.getrandbits(128)
                y = x ^ (1 << rng.randrange(128))

                def u(v):
                    return f"((({v >> 64} as Uint(128)) << 64) | ({v & (2 ** 64 - 1)} as Uint(128)))"
                src = f"const a = {u(x)}; const b = {u(y)}; static_assert(a == b);"
                want = f"{x} == {y}"
        elif rng.random() < .5:
            src = f"const a = {'-' if sa < 0 else ''}{la}; const b = {'-' if sb < 0 else ''}{lb}; " \
                  "static_assert(a == b);"
            want = f"{a * sa} == {b * sb}"
        else:
            src = f"function f(a: Int, b: Int) -> Int {{ assert(a == b); return 1; }} " \
                  f"const c = f({'-' if sa < 0 else ''}{la}, {'-' if sb < 0 else ''}{lb});"
            want = f"{a * sa} == {b * sb}"
        r = self.ask(ctx, "bms", src, "d")
        ctx.stats["evaluations"] += 1
        ctx.stats.saw("printed", src)
        if r["stage"] != "analyze" or "rendered" not in r:
            ctx.fail(f"false assertion accepted or not analysed: {r['stage']}", source=src)
        text = re.sub(r"\x1b\[[0-9;]*m", "", r["rendered"])
        m = re.search(r"Comparison evaluated to (.*)", text)
        if not m or m.group(1) != want:
            ctx.fail(f"diagnostic prints {m.group(1) if m else text!r}, expected {want}", source=src)

    def annotations(self, ctx):
        """@unroll(limit) accepts 1 to 128."""
        rng = ctx.rng
        lit = spell(rng, number(rng) if rng.random() < .5 else rng.randrange(130))
        v = ref_lex.int_value(lit)
        src = f"function f() -> Int {{ @unroll({lit}) while false {{ }} return 1; }}"
        r = self.ask(ctx, "bms", src, "vd")
        ctx.stats["evaluations"] += 1
        ctx.stats.saw("annotation", lit)
        ctx.stats.hit("annotation:" + r["stage"] + ":" + str(r.get("code")))
        want = "invalid_integer_literal" if v > MAX else \
            "annotation_argument_wrong_value" if not 0 < v <= 128 else None
        if r.get("code") != want:
            ctx.fail(f"annotation argument of value {v}: {r.get('code')}, expected {want}", source=src)

    def finish(self, stats):
        return [] if stats["too_large"] > 20 else ["too few too large literals"]


CHECK = C02()
