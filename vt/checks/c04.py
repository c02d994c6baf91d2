"""C04: the front end survives every source text, leaks nothing and answers consistently."""
from ..core import Check, problem_of
from .. import gen_prog, gen_syntax, mutate_prog as M, ref_parse, sema_case as S, soup
from . import c03, c14, c15

STAGES = {"tokenize", "parse", "analyze", "ok", "parsed", "tokenized"}


def splice(rng, a, b):
    """Part of one source inside another."""
    i, j = sorted(rng.randrange(len(b) + 1) for _ in range(2))
    at = rng.randrange(len(a) + 1)
    return a[:at] + b[i:j] + a[at:]


SHAPES = [
    lambda n, r: "const a = " + "(" * n + "1" + ")" * n + ";",
    lambda n, r: "const a = " + "!" * n + "true;",
    lambda n, r: "const a = " + "-(" * n + "1" + ")" * n + ";",
    lambda n, r: "const a = " + "1 + " * n + "1;",
    lambda n, r: "const a = " + "true && " * n + "false;",
    lambda n, r: "const a = " + "1 if true else " * n + "1;",
    lambda n, r: "const a = " + "f(" * n + ")" * n + ";",
    lambda n, r: "function f() -> Void " + "{" * n + "}" * n,
    lambda n, r: "function f() -> Void { " + "if true { } else " * n + "{ } }",
    lambda n, r: "function f() -> Void { " + "while false { " * n + "}" * n + " }",
    lambda n, r: "function f() -> Void { " + "let a = 1; { " * n + "}" * n + " }",
    lambda n, r: "function f() -> Void { " + "if true { " * n + "}" * n + " }",
    lambda n, r: "".join(f"function f{i}() -> Int {{ return f{i + 1}(); }}\n" for i in range(n))
    + f"function f{n}() -> Int {{ return 1; }} const a = f0();",
    lambda n, r: "".join(f"const c{i} = c{i + 1};\n" for i in range(n)) + f"const c{n} = 1;",
    lambda n, r: "const c0 = 1;" + "".join(f"const c{i + 1} = c{i} + c{i};\n" for i in range(n)),
    lambda n, r: "function f(" + ", ".join(f"p{i}: Uint(N{i})" for i in range(n)) + ") -> Int { return 1; }",
    lambda n, r: "function f(" + ", ".join(f"p{i}: Int" for i in range(n)) + ") -> Int { return p0; }"
    "const a = f(" + ", ".join("1" for _ in range(n)) + ");",
    lambda n, r: "@a(" + ", ".join("x = 1" for _ in range(n)) + ") const a = 1;",
    lambda n, r: "@immutable " * n + "const a = 1;",
    lambda n, r: "const " + "a" * (n * 50) + " = 1;",
    lambda n, r: "const a = " + "1" * n + ";",
    lambda n, r: "const a = 0x" + "0" * n + "1;",
    lambda n, r: "/*" + "*" * n + "*/" * r.randrange(2),
    lambda n, r: "\t" * n + "$",
    lambda n, r: "const a: " + "Uint(" * n + "8" + ")" * n + " = 1;",
    lambda n, r: "function g(x: Uint(N)) -> Uint(N) { return x; }\n"
    + "".join(f"const c{i} = g(1 as Uint({i % 128 + 1}));\n" for i in range(n)),
    lambda n, r: "function f(n: Int) -> Int { let s = 0; let i = 0; while i < n { i = i + 1; s = s + i; } "
    f"return s; }} const a = f({n * 20});",
    lambda n, r: "function f() -> Int { return f(); } const a = f();" + " " * n,
    lambda n, r: "function f() -> Int { return g(); } function g() -> Int { return f(); } const a = g();",
    lambda n, r: "const a = a; const b = c; const c = b;" + "\n" * n,
    lambda n, r: "function f(a: Uint(f(1))) -> Uint(f(2)) requires f(3) == 1 { return f(4); }",
    lambda n, r: "function g(a: Uint(N)) -> Uint(N) { return g(a); } const x = g(1 as Uint(8));",
    lambda n, r: "function g(a: Uint(N), b: Uint(M)) -> Uint(N) { return g(b, a) as Uint(N); } "
    "const x = g(1 as Uint(8), 2 as Uint(9));",
]


class C04(Check):
    id = "C04"
    rule = ("source texts of every kind: byte noise, token soup, mutated and spliced corpus files and "
            "generated programs, mutated names, types, annotations and statements, truncations, "
            "long and nested shapes (nesting up to 150 levels); each is tokenized, parsed, printed, analysed, "
            "rendered, optionally instantiated, twice; distinct by source; oracle: sanitizers, internal "
            "assertions, exceptions, CPU limit, allocation ledger of the memory resource, equal answers; "
            "failing allocations: std::bad_alloc and everything returned")

    def cases(self, tier):
        return 60000 if tier == "quick" else 2500000

    def make(self, ctx, i):
        rng = ctx.rng
        files = soup.corpus()
        k = i % 16
        if k == 0:
            n = rng.choice([0, 1, 2, 10, 100, 2000])
            return "".join(chr(rng.randrange(256)) for _ in range(n))
        if k == 1:
            return soup.soup(rng)
        if k == 2:
            return soup.mutate(rng, rng.choice(files))
        if k == 3:
            return splice(rng, rng.choice(files), rng.choice(files))
        if k == 4:
            return c03.make(ctx, 10 ** 6 + i)[1]
        if k == 5:
            return soup.mutate_tokens(rng, rng.choice(files))
        if k == 6:
            return splice(rng, c14.program(rng), c14.program(rng))
        if k == 7 and i % 64 == 7:
            return rng.choice(SHAPES)(rng.choice([0, 1, 2, 5, 30, 100, 150]), rng)
        if k == 8:
            return soup.mutate_tokens(rng, c14.program(rng))
        if k == 9:
            return soup.mutate(rng, c14.program(rng))
        src = c14.program(rng)
        for _ in range(rng.choice([1, 2, 4, 8])):
            src = rng.choice([M.mutate_types, M.mutate_names, M.inject_failure])(rng, src)
        if k == 15:
            try:
                for at, construct, _ in sorted(rng.sample(c15.points(src), 2), reverse=True):
                    src = src[:at] + " " + c15.annotation(rng, construct) + " " + src[at:]
            except (ref_parse.ParseError, ValueError, Exception):
                pass
        return c14.squeeze(rng, src) if rng.random() < .2 else src

    def case(self, ctx, i):
        rng = ctx.rng
        src = self.make(ctx, i)
        flags = "dtpve" if i % 3 else "dv"
        if i % 5 == 0:
            flags += f":i{rng.choice([0, 1, 2, 8, 33, 128, 129, -1])}"
        if "while" in src and "if" in src or "while" in src:
            # a program whose own constant evaluation may never end says nothing about the compiler
            try:
                if S.reference(src, None, 20000)[0] is None:
                    ctx.stats["not_terminating"] += 1
                    return
            except Exception:
                pass
        r = ctx.ask("bms", src, flags)
        ctx.stats["evaluations"] += 1
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src, flags=flags)
        if r["result"]["stage"] not in STAGES:
            ctx.fail(f"unknown outcome {r['result']['stage']}", source=src)
        ctx.stats.saw(src)
        ctx.stats.hit(f"{r['result']['stage']}:{r['result'].get('code', '')}")
        ctx.stats["allocations"] += r["allocs"]
        if r["unfreed"]:
            ctx.fail(f"{r['unfreed']} bytes of the memory resource were not returned", source=src, flags=flags)
        if i % 4 == 0:
            again = ctx.ask("bms", src, flags)
            ctx.stats["repeated"] += 1
            if again != r:
                ctx.fail("analysing the same source again gives another answer", source=src, flags=flags,
                         first=r, second=again)
        if i % 8 == 3:
            ctx.out_of_memory("bms", src, flags)
        if i % 4999 == 1:
            ctx.stats.sample({"source": src[:200], "stage": r["result"]["stage"],
                              "code": r["result"].get("code")})

    def finish(self, stats):
        return [] if stats["out_of_memory"] else ["no failing allocation"]


CHECK = C04()