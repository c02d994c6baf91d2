"""C20: generated C and C++ code computes what the program computes.

Programs are generated in batches, translated, compiled with a real compiler under UBSan, and their
functions called with many arguments; the reference interpreter says what they have to return."""
import os
import re
import shutil
import subprocess
import tempfile

from .. import gen_prog, ref_lex, ref_parse, ref_sema as R
from ..core import Check, problem_of

ANSI = re.compile(r"\x1b\[[0-9;]*m")
INT32 = (-(1 << 31), (1 << 31) - 1)
SAN = ["-fsanitize=undefined", "-fno-sanitize-recover=null", "-w", "-O1"]
# clang evaluates both arms of ?: when they are constant, and reports what is never executed
CLANG = ["clang", "-std=c2x", "-Dconstexpr=static const", *SAN, "-fno-sanitize=shift,integer-divide-by-zero"]
# name: (letter, option bits, compiler, widths)
TARGETS = {
    "c99": ("c", 0, ["gcc", "-std=c99", *SAN], [8, 16, 32, 64]),
    "cpp20": ("p", 0, ["g++", "-std=c++20", *SAN], [8, 16, 32, 64]),
    "c23": ("c", 1, CLANG, None),
    "c23std": ("c", 17, CLANG, None),
}
HEAD = """#include <assert.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
"""


class OutOfInt(Exception):
    """A value of type Int does not fit the C type int: the translation does not cover it."""


class Interpreter(R.Program):
    """The reference interpreter, restricted to Int values that C can hold where so desired."""
    limits = False
    last = {}

    def is_constant(self, n, fn):
        """Whether the generator knows the value of the expression."""
        return not any(k.kind == "Function_Call_Expression"
                       or k.kind == "Id_Expression" and fn.bind[id(k)].kind not in ("const", "generic")
                       for k in n.walk())

    def eval(self, n, fn, env):
        t, v = super().eval(n, fn, env)
        if self.limits and t == R.INT and not INT32[0] <= v <= INT32[1] and not self.is_constant(n, fn):
            raise OutOfInt()
        if self.limits and t == R.INT:
            self.last[id(n)] = v
            # the remainder is 0, but C leaves it undefined because the quotient is not an int
            if (n.kind == "Binary_Expression" and n.op == "remainder" and not self.is_constant(n, fn)
                    and [self.last[id(x)] for x in n.kids] == [INT32[0], -1]):
                raise OutOfInt()
        return t, v

    def exec(self, n, fn, env):
        r = super().exec(n, fn, env)
        if n.kind in ("Let", "Assignment"):
            s = fn.bind[id(n)]
            if s.type == R.INT and id(s) in env:
                self.limit(env[id(s)])
        if n.kind == "Return_Statement" and fn.ret == R.INT:
            self.limit(r[1])
        return r

    def invoke(self, fn, values):
        for p, v in zip(fn.params, values):
            if p.type == R.INT:
                self.limit(v)
        return super().invoke(fn, values)

    def limit(self, v):
        if self.limits and not INT32[0] <= v <= INT32[1]:
            raise OutOfInt()


def c_type(t, name):
    if t == R.VOID:
        return "void"
    if t == R.BOOL:
        return "bool"
    if t == R.INT:
        return "int"
    if name == "c23" or (name == "c23std" and t[1] not in (8, 16, 32, 64)):
        return f"unsigned _BitInt({t[1]})"
    return f"uint{t[1]}_t"


def c_value(t, v, name):
    if t == R.BOOL:
        return "true" if v else "false"
    if t == R.INT:
        return f"(int){v}ll"
    if v >> 64:
        ty = c_type(t, name)
        return f"(({ty}){v >> 64}ull << 64 | {v & (1 << 64) - 1}ull)"
    return f"({c_type(t, name)}){v}ull"


def argument(rng, t):
    if t == R.BOOL:
        return rng.random() < .5
    if t == R.INT:
        return rng.choice([0, 1, 2, 3, -1, 7, 100, 1000, -5, rng.randrange(-50, 50), 65535, *INT32])
    top = (1 << t[1]) - 1
    if rng.random() < .3:
        return min(top, rng.randrange(t[1]))
    return rng.choice([0, 1, top, top - 1 if top > 1 else 0, top >> 1, (top >> 1) + 1, 2 & top, 5 & top,
                       rng.randint(0, top), rng.randint(0, top), rng.randint(0, top)])


def shuffled(rng, src):
    """Top-level declarations in another order: BMS allows uses before declarations."""
    parts = re.split(r"(?m)^(?=function |const |static_assert)", src)
    head, parts = parts[0], parts[1:]
    rng.shuffle(parts)
    return head + "".join(parts)


def features(tree):
    """(widths and generic calls are decided by the caller)"""
    out = set()
    for n in tree.walk():
        if n.kind == "Let" and n.kids[1] is not None and n.kids[1].type == "Void":
            out.add("void object")
        if n.kind == "Parameter" and n.kids[0].type == "Void":
            out.add("void object")
    return out


def small_operand(rng, t, w, d):
    """An operand of an operation whose type is Uint(w), written with type t."""
    if d > 0 and rng.random() < .45:
        return "(" + small_expression(rng, t, w, d - 1) + ")"
    if t == "Int":
        return rng.choice(["n", "m", "n", "m", "0", "1", "2", "7", "100", str(w - 1), str(min((1 << w) - 1, (1 << 31) - 1)),
                           str(1 << min(w - 1, 30)), str(rng.randrange(1 << min(w, 31)))])
    return rng.choice(["x", "y", "x", "y", "s", f"(n as Uint({w}))", f"({rng.randrange(1 << min(w, 63))} as Uint({w}))",
                       f"({(1 << w) - 1} as Uint({w}))", f"(1 as Uint({w}))", f"(0 as Uint({w}))"])


def small_expression(rng, t, w, d):
    k = rng.random()
    if k < .12:
        return rng.choice("+-" if t == "Int" else "+-~~") + small_operand(rng, t, w, d)
    if k < .22:
        c = rng.choice(["b", "!b", "x < y", "n == m", "x != s", "n >= 0", "b && x > s", "x == 0 || b"])
        return f"{small_operand(rng, t, w, d)} if {c} else {small_operand(rng, t if rng.random() < .6 else 'Int', w, d)}"
    if t == "Int":
        return f"{small_operand(rng, t, w, d)} {rng.choice('+-*/%')} {small_operand(rng, t, w, d)}"
    if k < .5:
        return (f"{small_operand(rng, rng.choice(['Int', t, t]), w, d)} {rng.choice(['<<', '>>'])} "
                + rng.choice(["s", "s", "s", "n", f"(s - 1)", str(rng.randrange(w)), f"(s & {w - 1})"]))
    l, r = (t, t) if rng.random() < .5 else rng.choice([("Int", t), (t, "Int")])
    return (f"{small_operand(rng, l, w, d)} {rng.choice('+-*/%&|^&|^*-')} {small_operand(rng, r, w, d)}")


def operations(rng, widths):
    """Functions of few operations, so that little hides the effect of one of them."""
    out = []
    for k in range(rng.randrange(3, 8)):
        w = rng.choice(widths or [8, 16, 32, 64, 1, 7, 9, 24, 33, 63, 65, 127, 128, rng.randrange(1, 129)])
        t = rng.choice(["Uint", "Uint", "Uint", "Int", "Bool"])
        head = f"function f{k}(x: Uint({w}), y: Uint({w}), s: Uint({w}), n: Int, m: Int, b: Bool)"
        if t == "Bool":
            u = rng.choice(["Uint", "Uint", "Int"])
            e = (f"{small_operand(rng, u, w, 2)} {rng.choice(['<', '>', '<=', '>=', '==', '!='])} "
                 f"{small_operand(rng, u if rng.random() < .6 else 'Int', w, 2)}")
            ret = "Bool"
        else:
            e, ret = small_expression(rng, t, w, rng.choice([0, 1, 2])), "Int" if t == "Int" else f"Uint({w})"
        body = f"return {e};"
        if rng.random() < .3:
            body = f"let v: {ret} = {e}; v = " + ("v != b" if ret == "Bool" else f"v {rng.choice('+-*')} "
                                                  + rng.choice(["n", "v"] + ["x"] * (t != "Int"))) + "; return v;"
        out.append(f"{head} -> {ret} {{ {body} }}\n")
    return "".join(out)


class C20(Check):
    id = "C20"
    rule = ("batches of generated programs (own widths, declarations shuffled, every option) translated to C99, "
            "C++20 and C23, compiled under UBSan by gcc, g++ and clang, each function called with up to 8 argument "
            "lists; distinct by source text and target; oracle: reference interpreter over unbounded integers")
    quick, thorough = 900, 40000
    per_batch = 14

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def ask(self, ctx, src, flags):
        r = ctx.ask("bms", src, flags, 10)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        return r["result"]

    # ------------------------------------------------------------------
    def program(self, rng, name):
        widths = TARGETS[name][3]
        if rng.random() < .35:
            return operations(rng, widths)
        # some programs must not be translatable
        odd = rng.random() < .08
        opts = dict(functions=3, consts=2, depth=rng.choice([2, 3, 4]), generics=.3 if odd else 0,
                    voids=.15 if odd else 0, missing_return=.01, uninit=.08, risky=.04, asserts=True, big=.1)
        g = gen_prog.Gen(rng, **opts)
        if widths is not None and not (odd and rng.random() < .5):
            g.widths = [8, 16, 32, 64] if rng.random() < .3 else rng.sample(widths, 2)
        src = g.program()
        if rng.random() < .3:
            src = shuffled(rng, src)
        return src

    def expected_error(self, p, tree, name, code):
        """Whether refusing to translate this program is justified."""
        if code == 2:
            if "void object" in features(tree):
                return True
            for s in p.decls:
                if s.kind == "fn" and s.fn.instances:
                    return True
                # a variable may be of type Void without saying so
                if s.kind == "fn" and not s.fn.generic:
                    for n in s.node.walk():
                        if n.kind == "Let" and s.fn.bind[id(n)].type == R.VOID:
                            return True
            return False
        if code != 1:
            return False
        for s in p.decls:
            if s.kind != "fn" or s.fn.generic:
                continue
            types = [x.type for x in s.fn.params] + [s.fn.ret]
            types += [x.type for x in s.fn.bind.values() if isinstance(x, R.Sym) and x.kind in ("let", "const")]
            for n in s.node.walk():
                if n.kind == "Type" and n.info is not None:
                    types.append(n.info)
            if TARGETS[name][3] is not None and any(t is not None and t[0] == "Uint" and t[1] not in (8, 16, 32, 64)
                                                    for t in types):
                return True
        # huge Int constants have no C type
        lits = [int(re.sub(r"^0(?=[0-7])", "0o", n.name), 0) for n in tree.walk()
                if n.kind == "Literal" and n.name not in ("true", "false")]
        lits += [abs(s.value) for s in p.decls if s.kind == "const" and s.type in (R.INT,)]
        # products of small literals stay small enough at the depths generated here
        return any(v >= 1 << 20 for v in lits)

    def case(self, ctx, i):
        rng = ctx.rng
        name = list(TARGETS)[i % len(TARGETS)]
        letter, base, compiler, _ = TARGETS[name]
        batch = []
        while len(batch) < self.per_batch:
            src = self.program(rng, name)
            try:
                p = Interpreter(ref_parse.parse(src), 60000)
                p.run()
                p.limits, p.last = True, {}
            except (R.SemaError, R.Exhausted, RecursionError, ref_parse.ParseError, ref_lex.LexError):
                continue
            opts = base | rng.choice([0, 0, 2, 4, 8, 14])
            r = self.ask(ctx, src, f"v:g{letter}{chr(48 + opts)}")
            if r["stage"] != "ok":
                ctx.fail(f"a program that should be accepted is rejected: {r.get('code')}", source=src)
            g = r["gen"]
            ctx.stats.hit(f"{name}:{'translated' if g['ok'] else 'refused ' + str(g['code'])}")
            if ANSI.sub("", g["colored"]) != g["text"] or not g["plain_same"]:
                ctx.fail("printing the generated code changes its text", source=src, output=g["text"])
            end = 0
            for b, length, _ in g["spans"]:
                if b < end or g["text"][end:b].strip(" \t\r\n") or length == 0:
                    ctx.fail("the marked spans do not tile the generated code", source=src, output=g["text"])
                end = b + length
            if g["text"][end:].strip():
                ctx.fail("the marked spans do not tile the generated code", source=src, output=g["text"])
            if rng.random() < .05:
                other = rng.choice("rjkst")
                h = self.ask(ctx, src, f"v:g{other}{chr(48 + opts)}")["gen"]
                if h["ok"] or h["text"]:
                    ctx.fail(f"code is generated in language {other}, which is not supported", source=src)
                ctx.stats.hit("unsupported language:" + other)
            if not g["ok"]:
                if g["text"]:
                    ctx.fail("a failed translation leaves code behind", source=src, output=g["text"])
                if not self.expected_error(p, p.tree, name, g["code"]):
                    ctx.fail(f"translation to {name} fails with {g['code']} without reason", source=src)
                continue
            ctx.stats.saw(name, src)
            batch.append((src, p, g["text"], self.calls(ctx, rng, p, name)))
        d = tempfile.mkdtemp(prefix="vt-c20-")
        try:
            self.execute(ctx, d, name, compiler, batch)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if i % 41 == 1:
            src, p, text, calls = batch[0]
            ctx.stats.sample({"target": name, "source": src[:400], "output": text[:500],
                              "calls": [f"{f.node.name}{v} -> {x}" for f, v, x in calls[:4]]})

    def calls(self, ctx, rng, p, name):
        out = []
        for s in p.decls:
            if s.kind != "fn" or s.fn.generic:
                continue
            f, seen = s.fn, set()
            tries = 8 if f.params else 1
            if len(f.params) == 6:
                tries = 30
            for _ in range(tries):
                vals = [argument(rng, x.type) for x in f.params]
                if tuple(vals) in seen:
                    continue
                seen.add(tuple(vals))
                p.steps, p.calls = 20000, 0
                try:
                    v = p.invoke(f, list(vals))
                except OutOfInt:
                    ctx.stats["beyond_int"] += 1
                    continue
                except (R.EvalError, R.Exhausted, RecursionError):
                    ctx.stats["undefined"] += 1
                    continue
                ctx.stats["evaluations"] += 1
                ctx.stats.hit("returns:" + f.ret[0])
                out.append((f, vals, v))
        return out

    def unit(self, name, batch):
        lines = [HEAD]
        rows = []
        for k, (src, p, text, calls) in enumerate(batch):
            names = [s.name for s in p.decls if s.name]
            lines += [f"#define {n} P{k}_{n}" for n in names]
            lines.append(text)
            lines += [f"#undef {n}" for n in names]
            body = []
            for f, vals, v in calls:
                args = ", ".join(c_value(x.type, a, name) for x, a in zip(f.params, vals))
                call = f"P{k}_{f.node.name}({args})"
                n = len(rows)
                rows.append((k, f, vals, v))
                if f.ret == R.VOID:
                    body.append(f"    {call}; printf(\"{n} 1\\n\");")
                else:
                    body.append(f"    printf(\"{n} %d\\n\", {call} == {c_value(f.ret, v, name)});")
                body.append("    fflush(stdout);")
            lines.append(f"void run{k}(void) {{\n" + "\n".join(body) + "\n}")
        lines.append("int main(void) {\n" + "\n".join(f"    run{k}();" for k in range(len(batch)))
                     + "\n    return 0;\n}")
        return "\n".join(lines) + "\n", rows

    def compile(self, d, name, compiler, batch):
        code, rows = self.unit(name, batch)
        src = os.path.join(d, "t.cpp" if name == "cpp20" else "t.c")
        with open(src, "w") as f:
            f.write(code.replace("#include <stdbool.h>\n", "#include <cstdint>\n") if name == "cpp20" else code)
        r = subprocess.run(compiler + [src, "-o", os.path.join(d, "t")], capture_output=True, text=True)
        return r, rows

    def execute(self, ctx, d, name, compiler, batch):
        r, rows = self.compile(d, name, compiler, batch)
        if r.returncode != 0:
            for one in batch:
                r1, _ = self.compile(d, name, compiler, [one])
                if r1.returncode != 0:
                    ctx.fail(f"the code generated for {name} does not compile", source=one[0], output=one[2],
                             error=r1.stderr[:600])
            raise RuntimeError("the batch does not compile but its parts do: " + r.stderr[:600])
        ctx.stats["units_compiled"] += 1
        run = subprocess.run([os.path.join(d, "t")], capture_output=True, text=True, timeout=120,
                             env={"PATH": "/usr/bin:/bin", "UBSAN_OPTIONS": "print_stacktrace=0"})
        got = dict(x.split() for x in run.stdout.split("\n") if x)
        for n, (k, f, vals, v) in enumerate(rows):
            src, _, text, _ = batch[k]
            if got.get(str(n)) != "1":
                what = "returns another value than" if str(n) in got else "does not return although"
                ctx.fail(f"{f.node.name}{vals} in {name} {what} the program's {v}", source=src, output=text,
                         stderr=run.stderr[:600])
        if "runtime error" in run.stderr or run.returncode != 0:
            ctx.fail(f"undefined behavior in the code generated for {name}", error=run.stderr[:800],
                     sources="\n---\n".join(b[2] for b in batch)[:6000])

    def finish(self, stats):
        need = [f"{n}:{x}" for n in TARGETS for x in ("translated", "refused 2")]
        need += ["c99:refused 1", "cpp20:refused 1", "returns:Uint", "returns:Int", "returns:Bool", "returns:Void"]
        need += ["unsupported language:" + x for x in "rjkst"]
        return [f"never observed: {k}" for k in need if not stats.cover[k]]


CHECK = C20()
