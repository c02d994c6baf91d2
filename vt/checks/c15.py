"""C15: validation of annotations."""
import re

from ..core import Check
from .. import gen_prog, gen_syntax, mutate_prog as M, ref_lex, ref_parse, sema_case as S
from .sema import SMALL_OPTS, SemaCheck

MAX = (1 << 127) - 1
TARGETS = {"immutable": {"variable"}, "inline": {"variable", "call"}, "loop_variable": {"variable"},
           "loop_step": {"assignment"}, "unroll": {"while"}, "c_equivalent": {"function"},
           "java_equivalent": {"function"}, "instantiate": {"function"}, "false_if_unknown": {"if"},
           "remove_if_unused": {"function"}}


def width_ok(v):
    return 0 < v <= 128


PARAMS = {
    "unroll": [("limit", "int", False, width_ok)],
    "c_equivalent": [("function", "string", False, bool), ("include", "string", True, bool),
                     ("since", "int", True, lambda v: v in (89, 90, 99, 11, 17, 23, 29))],
    "java_equivalent": [("method", "string", False, bool)],
    "instantiate": [("n", "int", False, width_ok)],
}
CONSTRUCT = {"Const": "constant", "Let_Const": "constant", "Let": "variable", "While_Statement": "while",
             "If_Statement": "if", "Assignment": "assignment", "Function": "function",
             "Function_Call_Expression": "call"}


def kind_of_value(t):
    if t in ("keyword_true", "keyword_false"):
        return "bool"
    return "string" if t == "string_literal" else "int"


def check_one(a, construct):
    """(code, token) of the first error of an annotation, or None."""
    if a.name not in TARGETS:
        return "annotation_unknown", a.tok
    if construct not in TARGETS[a.name]:
        return "annotation_not_applicable", a.tok
    params = PARAMS.get(a.name, [])
    given = set()
    for arg in a.kids:
        if arg.key:
            p = next((p for p in params if p[0] == arg.key), None)
            if p is None:
                return "annotation_unknown_parameter", arg.tok
            if p[0] in given:
                return "annotation_argument_duplicate", arg.tok
        else:
            p = next((p for p in params if p[0] not in given), None)
            if p is None:
                return "annotation_too_many_arguments", arg.tok
        given.add(p[0])
        kind = kind_of_value(arg.type)
        if kind != p[1]:
            return "annotation_argument_wrong_type", arg.tok
        v = arg.value
        if kind == "int":
            v = ref_lex.int_value(arg.value)
            if v > MAX:
                return "invalid_integer_literal", arg.tok
        if not p[3](v):
            return "annotation_argument_wrong_value", arg.tok
    for p in params:
        if not p[2] and p[0] not in given:
            return "annotation_missing_argument", a.tok
    return None


def first_error(n):
    for k in n.kids:
        if k is not None and k.kind == "Attribute_List":
            for a in k.kids:
                e = check_one(a, CONSTRUCT.get(n.kind, n.kind))
                if e:
                    return e
    for k in n.kids:
        if k is not None and k.kind != "Attribute_List":
            e = first_error(k)
            if e:
                return e
    return None


def annotation(rng, construct):
    k = rng.random()
    fitting = [a for a, t in TARGETS.items() if construct in t]
    if k < .75 and fitting:
        name = rng.choice(fitting)
    elif k < .97:
        name = rng.choice(list(TARGETS))
    else:
        name = rng.choice(["unknown", "Immutable", "inline_", "unrol", "unrolls", "loop_", "limit", "c",
                           "const_"])
    params = PARAMS.get(name, [])
    args = []
    order = list(params)
    if rng.random() < .2:
        rng.shuffle(order)
    for p in order:
        if p[2] and rng.random() < .5 or rng.random() < .04:
            continue
        args.append((p[0] if rng.random() < .5 or p is not params[min(len(args), len(params) - 1)]
                     else "", value(rng, p)))
    k = rng.random()
    if k < .05:
        args.insert(rng.randrange(len(args) + 1), ("", value(rng, None)))
    elif k < .08:
        args.insert(rng.randrange(len(args) + 1), (rng.choice(["limit", "n", "method", "include", "x"]),
                                                   value(rng, None)))
    elif k < .11 and args:
        args.insert(rng.randrange(len(args) + 1), rng.choice(args))
    elif k < .13 and args:
        args[rng.randrange(len(args))] = ("", value(rng, None))
    elif k < .15 and len(args) > 1:
        args.reverse()
    text = ", ".join((f"{k} = " if k else "") + v for k, v in args)
    return f"@{name}({text})" if args or rng.random() < .3 else f"@{name}"


def value(rng, p):
    if p is None or rng.random() < .06:
        return rng.choice(["1", "0", '""', '"a"', "true", "false", "0x10", str(MAX + 1), "129", "99"])
    if p[1] == "string":
        return rng.choice(['"f"', '"stdbit.h"', '"a\\"b"', '"\\\\"', '" "', '""' if rng.random() < .2 else '"x"'])
    if p[1] == "int" and rng.random() < .1:
        # near a permitted value in some way that a check may overlook
        v = rng.choice([1, 64, 128, 89, 99, 11, 23])
        return str(v + rng.choice([100, 1000, 1900, 2000, 256, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 1 << 127,
                                   -1, 1]))
    if p[0] == "since":
        if rng.random() < .15:
            return str(rng.randrange(132))
        return str(rng.choice([89, 90, 99, 11, 17, 23, 29, "0x17", 29, 20, 98, 0, 88][:9 if rng.random() < .85 else 13]))
    return rng.choice(["1", "128", "0b1000000", "0x7f", "64", "017"] if rng.random() < .85
                      else ["0", "129", "0x81", "256", str(MAX), str(MAX + 1), str(1 << 128),
                            str((1 << 64) + 1)])


def points(src):
    """(offset, construct, before) of places where an annotation may be inserted."""
    out = []
    tree = ref_parse.parse(src)

    def walk(n, in_else):
        c = CONSTRUCT.get(n.kind)
        if c == "call":
            i = src.index("(", n.tok.begin)
            depth = 0
            while True:
                depth += (src[i] == "(") - (src[i] == ")")
                i += 1
                if depth == 0:
                    break
            if not n.stmt:
                out.append((i, c, False))
            else:
                out.append((n.tok.begin, c, True))
        elif c and not in_else:
            out.append((n.tok.begin, c, True))
        for j, k in enumerate(n.kids):
            if k is not None:
                walk(k, n.kind == "If_Statement" and k.kind == "If_Statement")
    walk(tree, False)
    return out


class C15(SemaCheck):
    id = "C15"
    rule = ("generated programs with one or a few annotations inserted at functions, constants, "
            "variables, assignments, calls, loops and conditions, with fitting and unfitting names and "
            "arguments; distinct by source text; oracle: table of annotation signatures for the first "
            "error and its position, and the reference semantics of the program without annotations")
    quick, thorough = 40000, 1200000

    def case(self, ctx, i):
        rng = ctx.rng
        src = gen_prog.Gen(rng, **SMALL_OPTS).program()
        if rng.random() < .1:
            src = M.insert_typed(rng, src)
        if ref_lex.lex(src)[1] is not None:
            return
        try:
            ps = points(src)
        except ref_parse.ParseError:
            return
        if not ps:
            return
        plain, _ = S.reference(src)
        out = src
        few = [p for p in ps if p[1] != "constant"]
        if few and rng.random() < .9:
            ps = few
        chosen = rng.sample(ps, min(len(ps), rng.choice([1, 1, 1, 2, 3])))
        for at, construct, before in sorted(chosen, reverse=True):
            text = " ".join(annotation(rng, construct) for _ in range(rng.choice([1, 1, 1, 2])))
            out = out[:at] + (text + rng.choice([" ", "\n"]) if before else " " + text + " ") + out[at:]
        try:
            tree = ref_parse.parse(out)
        except ref_parse.ParseError:
            ctx.stats["not_parsed"] += 1
            return
        err = first_error(tree)
        ctx.stats["evaluations"] += 1
        ctx.stats.saw(out)
        got, raw = S.actual(ctx, out, flags="vd")
        if err is not None:
            code, tok = err
            ctx.stats.hit("outcome:" + code)
            if got.code != code:
                ctx.fail(f"expected {code} at line {tok.line + 1}, got {got}", source=out)
            want = [tok.begin, tok.line, tok.column]
            if list(got.pos) != want:
                ctx.fail(f"{code} is reported at {got.pos}, expected {want}", source=out)
            if ctx.stats["evaluations"] % 997 == 1:
                ctx.stats.sample({"source": out[:400], "outcome": code})
            return
        if plain is None:
            return
        ctx.stats.hit("outcome:valid annotations")
        if plain.key() != got.key():
            ctx.fail(f"with valid annotations the outcome is {got} instead of {plain}", source=out)
        if plain.consts is not None:
            d = S.diff_consts(plain.consts, got.consts)
            if d:
                ctx.fail("with annotations: " + d, source=out)


CHECK = C15()
