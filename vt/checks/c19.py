"""C19: code generated in BMS means the same as the program it was generated from."""
import re

from .. import gen_prog, mutate_prog as M, ref_lex, ref_parse, sema_case as S
from ..core import Check, problem_of

ANSI = re.compile(r"\x1b\[[0-9;]*m")
SMALL = dict(functions=2, consts=3, depth=3)
DEEP = dict(functions=1, consts=4, depth=6, big=.1, missing_return=0, loops=False)


def strip(node):
    """The meaning of the tree: no positions, no annotations, no parentheses."""
    slots = {"Function": 0, "Const": 0, "Let": 0, "If_Statement": 0, "While_Statement": 0, "Assignment": 0}
    if node is None:
        return None
    kids = list(node.kids)
    if node.kind in slots:
        kids = kids[1:]
    elif node.kind == "Function_Call_Expression":
        kids = kids[:-1]
    return (node.kind, node.name, node.op, node.type, node.stmt, tuple(strip(k) for k in kids))


def first_difference(a, b, path="Program"):
    if a is None or b is None:
        return None if a is b else f"{path}: {a and a[:5]} became {b and b[:5]}"
    if a[:5] != b[:5] or len(a[5]) != len(b[5]):
        return f"{path}: {a[:5]} with {len(a[5])} parts became {b[:5]} with {len(b[5])} parts"
    for x, y in zip(a[5], b[5]):
        d = first_difference(x, y, f"{path}/{(x or y or ['nothing'])[0]}")
        if d:
            return d
    return None


def label(n):
    if n.kind == "Binary_Expression":
        return n.op
    if n.kind == "Prefix_Expression":
        return "prefix"
    return {"If_Expression": "if", "Conversion_Expression": "as", "Function_Call_Expression": "call",
            "Id_Expression": "id", "Literal": "literal"}.get(n.kind)


class C19(Check):
    id = "C19"
    rule = ("generated accepted programs (small, deep in expressions, annotated, generic, instantiated) times "
            "every combination of options; distinct by source text and options; oracle: reference parser on "
            "the output compared with the reference parser on the source, second generation, second analysis, "
            "reference lexer against the marked spans")
    quick, thorough = 14000, 500000

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def ask(self, ctx, src, flags):
        r = ctx.ask("bms", src, flags, 10)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        return r["result"]

    def case(self, ctx, i):
        rng = ctx.rng
        deep = rng.random() < .5
        src = gen_prog.Gen(rng, **(DEEP if deep else SMALL)).program()
        if rng.random() < .1:
            src = M.insert_typed(rng, src)
        if rng.random() < .15:
            src = self.annotate(rng, src)
        widths = rng.choice([None, None, None, 8])
        fl = "v" if widths is None else f"v:i{widths}"
        opts = rng.randrange(16)
        base = self.ask(ctx, src, fl + f":gb{chr(48 + opts)}")
        if base["stage"] != "ok":
            ctx.stats["rejected"] += 1
            return
        ctx.stats["evaluations"] += 1
        ctx.stats.saw(f"{opts} {src}")
        g = base["gen"]
        out = g["text"]
        if not g["ok"]:
            ctx.fail(f"no code is generated for an accepted program ({g['code']})", source=src)
        if ANSI.sub("", g["colored"]) != out or not g["plain_same"]:
            ctx.fail("printing the generated code changes its text", source=src, output=out)
        tree = ref_parse.parse(src)
        try:
            again = ref_parse.parse(out)
        except (ref_parse.ParseError, ref_lex.LexError) as e:
            ctx.fail(f"the generated code is not valid BMS: {type(e).__name__}", source=src, output=out,
                     options=opts)
        d = first_difference(strip(tree), strip(again))
        if d:
            ctx.fail(f"the generated code has another meaning: {d}", source=src, output=out, options=opts)
        self.spans(ctx, src, out, g["spans"])
        self.layout(ctx, src, out, opts)
        second = self.ask(ctx, out, fl + f":gb{chr(48 + opts)}")
        if second["stage"] != "ok":
            ctx.fail(f"the generated code is not accepted: {second.get('code', second['stage'])}", source=src,
                     output=out, options=opts)
        if second["gen"]["text"] != out:
            ctx.fail("generating from the generated code gives other code", source=src, output=out,
                     second=second["gen"]["text"], options=opts)
        d = S.diff_consts(base.get("consts", {}), second.get("consts", {}))
        if d:
            ctx.fail("evaluating the generated code: " + d, source=src, output=out, options=opts)
        other = rng.randrange(16)
        if other != opts:
            a = self.ask(ctx, src, fl + f":gb{chr(48 + other)}")["gen"]["text"]
            b = self.ask(ctx, out, fl + f":gb{chr(48 + other)}")["gen"]["text"]
            if a != b:
                ctx.fail("options change the program rather than its layout", source=src, output=out,
                         a=a, b=b, options=[opts, other])
            if not (opts ^ other) & 2 and a.split() != out.split():
                ctx.fail("layout options change more than white space", source=src, output=out, a=a,
                         options=[opts, other])
        ctx.stats.hit(f"options:{opts}")
        for n in tree.walk():
            outer = label(n)
            ctx.stats.hit("node:" + n.kind)
            if n.kind == "If_Statement" and n.kids[3] is not None:
                ctx.stats.hit("else:" + n.kids[3].kind)
            if n.kind == "Function" and n.kids[3] is not None:
                ctx.stats.hit("requires")
            if n.stmt:
                ctx.stats.hit("call statement")
            if outer is None:
                continue
            for k in n.kids:
                if k is not None and label(k):
                    ctx.stats.hit(f"nest:{outer}>{label(k)}")
        if i % 1999 == 1:
            ctx.stats.sample({"source": src[:300], "output": out[:400], "options": opts})

    def annotate(self, rng, src):
        from . import c15
        try:
            ps = c15.points(src)
        except (ref_parse.ParseError, ref_lex.LexError):
            return src
        for at, construct, before in sorted(rng.sample(ps, min(len(ps), 2)), reverse=True):
            text = c15.annotation(rng, construct)
            src = src[:at] + (text + " " if before else " " + text + " ") + src[at:]
        return src

    def spans(self, ctx, src, out, spans):
        toks, err = ref_lex.lex(out)
        need = [[t.begin, t.length] for t in toks]
        got = [s[:2] for s in spans]
        if err is not None or need != got:
            k = next((k for k, (a, b) in enumerate(zip(need, got)) if a != b), min(len(need), len(got)))
            ctx.fail(f"marked spans {got[k:k + 2]} instead of tokens {need[k:k + 2]}", source=src, output=out)

    def layout(self, ctx, src, out, opts):
        unit = "\t" if opts & 8 else "    "
        depth = 0
        for line in out.split("\n"):
            text = line.lstrip(unit[0])
            if not text:
                continue
            if text.startswith("}"):
                depth -= 1
            if line != unit * depth + text:
                ctx.fail(f"line {line!r} is not indented {depth} deep", source=src, output=out, options=opts)
            if opts & 4 and text.endswith("{") and text != "{":
                ctx.fail(f"brace is not on its own line in {line!r}", source=src, output=out, options=opts)
            if not opts & 4 and text.endswith("{") and text != "{" and depth == 0 \
                    and not text.startswith("function"):
                ctx.fail(f"unexpected brace in {line!r}", source=src, output=out, options=opts)
            if text.endswith("{"):
                depth += 1
        if depth != 0:
            ctx.fail("indentation does not return to zero", source=src, output=out, options=opts)

    def finish(self, stats):
        arith, comp = ref_parse.ARITH | {"bitwise_and", "bitwise_or", "bitwise_xor", "shift_left", "shift_right"}, \
            ref_parse.COMPARE
        need = [f"options:{k}" for k in range(16)] + [
            "else:If_Statement", "else:Block_Statement", "requires", "call statement", "node:While_Statement",
            "node:Break", "node:Continue", "node:Static_Assert", "node:Let", "node:Assignment"]
        for o in ("if", "as", "prefix", *sorted(arith)):
            need += [f"nest:{o}>{k}" for k in ("if", "as", "prefix", "call", "id", "literal", *sorted(arith))]
        for o in sorted(comp):
            need += [f"nest:{o}>{k}" for k in ("if", "as", "prefix", *sorted(arith))]
        for o in ("logical_and", "logical_or"):
            need += [f"nest:{o}>{k}" for k in ("if", "prefix", *sorted(comp), "logical_and", "logical_or")]
        return [f"never observed: {k}" for k in need if not stats.cover[k]]


CHECK = C19()
