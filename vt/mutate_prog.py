"""Mutations of meaningful programs, aimed at names, types or the statements executed."""
import re

from . import ref_lex
from .gen_prog import WIDTHS

BINARY = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&",
          "||"]
DECLARING = {"keyword_let", "keyword_const", "keyword_function"}


def tokens(src):
    toks, err = ref_lex.lex(src)
    return [t for t in toks if t.type not in ("line_comment", "block_comment")]


def text(src, t):
    return src[t.begin:t.begin + t.length]


def replace(src, t, new):
    return src[:t.begin] + new + src[t.begin + t.length:]


def kind_tokens(src, *types):
    return [t for t in tokens(src) if t.type in types]


# ------------------------------------------------------------ names

def rename(rng, src):
    ids = kind_tokens(src, "identifier")
    if not ids:
        return src
    t = rng.choice(ids)
    names = sorted({text(src, x) for x in ids})
    k = rng.randrange(10)
    if k < 6:
        # prefer something declared nearby
        near = [text(src, x) for x in ids if abs(x.begin - t.begin) < 300]
        new = rng.choice(near if rng.random() < .7 else names)
    elif k < 8:
        new = "undeclared"
    else:
        new = "assert"
    return replace(src, t, new)


def declared(src):
    toks = tokens(src)
    out = []
    for i, t in enumerate(toks[:-1]):
        n = toks[i + 1]
        if t.type in DECLARING and n.type == "identifier":
            out.append(n)
        if t.type == "identifier" and n.type == "colon" and i and \
                toks[i - 1].type in ("left_parenthesis", "comma"):
            out.append(t)
    return out


def redeclare(rng, src):
    ds = declared(src)
    if len(ds) < 2:
        return src
    a, b = rng.sample(ds, 2)
    if rng.random() < .1:
        return replace(src, a, "assert")
    return replace(src, a, text(src, b))


def rename_declaration(rng, src):
    """Renames a declaration and all its uses to another declared name: uniformly wrong or fine."""
    ds = declared(src)
    if len(ds) < 2:
        return src
    a, b = rng.sample(ds, 2)
    return re.sub(r"\b%s\b" % text(src, a), text(src, b), src)


def top_level(src):
    out = []
    for line in src.split("\n"):
        if re.match(r"(function|const|static_assert)\b", line) or not out:
            out.append([line])
        else:
            out[-1].append(line)
    return ["\n".join(x) for x in out if any(x)]


def reorder(rng, src):
    parts = top_level(src)
    if rng.random() < .5:
        rng.shuffle(parts)
    elif len(parts) > 1:
        i = rng.randrange(len(parts))
        x = parts.pop(i)
        parts.insert(rng.randrange(len(parts) + 1), x)
    return "\n".join(parts) + "\n"


def body_lines(lines):
    return [i for i, x in enumerate(lines) if x.startswith("    ") and x.endswith(";")]


def move_statement(rng, src):
    lines = src.split("\n")
    at = body_lines(lines)
    if not at:
        return src
    i = rng.choice(at)
    k = rng.randrange(4)
    x = lines[i]
    if k == 0:
        del lines[i]
    elif k == 1:
        lines.insert(rng.choice(at), x)
    else:
        del lines[i]
        at = [j for j, y in enumerate(lines) if y.startswith("    ")]
        if not at:
            return src
        lines.insert(rng.choice(at), x)
    return "\n".join(lines)


def extra_use(rng, src):
    """A statement using, assigning or calling some name somewhere."""
    ids = kind_tokens(src, "identifier")
    if not ids:
        return src
    n = text(src, rng.choice(ids)) if rng.random() < .9 else rng.choice(["nowhere", "assert"])
    m = text(src, rng.choice(ids))
    s = rng.choice([f"{n} = {n};", f"{n} = {m};", f"{n}();", f"{n}({m});", f"let zz = {n};",
                    f"const zz = {n};", f"let zz: Uint({n}) = 0;", f"let zz = {n}({m});",
                    f"{{ let zz = {m}; }} {n} = zz;", f"{{ let {n} = {m}; }}",
                    f"static_assert({n} == {m});", f"let {n} = 1;", f"const {n} = 1;",
                    f"{{ let zz = 1; }} {{ let zz = {m}; }}", f"const zz = {n}({m});",
                    f"while false {{ let {n} = 1; }}", f"let {n}: Int;", f"{{ let {n}: Int; }}",
                    f"let {n}: Uint(8) = 0;", f"const {n}: Int = 0;", f"let zz: Int; zz = {n};",
                    f"if true {{ let zz: Int; }} zz = {n};", f"if true {{ const zz = 1; }} else {{ {n} = zz; }}",
                    f"if false {{ let {n}: Bool; }} else {{ let {n}: Bool; }}"])
    return insert_statement(rng, src, s)


def insert_statement(rng, src, s):
    lines = src.split("\n")
    at = [i for i, x in enumerate(lines)
          if x.endswith(("{", ";")) and (x.startswith("    ") or x.startswith("function"))]
    if not at:
        return src
    i = rng.choice(at)
    lines.insert(i + 1, "    " + s)
    return "\n".join(lines)


NAME_MUTATIONS = [rename, rename, redeclare, redeclare, reorder, move_statement, extra_use,
                  extra_use, rename_declaration]


def mutate_names(rng, src):
    for _ in range(rng.choice([1, 1, 1, 2])):
        src = rng.choice(NAME_MUTATIONS)(rng, src)
    return src


# ------------------------------------------------------------ types

def some_type(rng):
    k = rng.randrange(10)
    if k < 2:
        return "Int"
    if k < 4:
        return "Bool"
    if k == 4:
        return "Void"
    if k == 5:
        return "Uint(%s)" % rng.choice(["0", "129", "128", "1", "true", "-1", "1 + 1", "256", "0 - 5",
                                        "18446744073709551616", "4294967297", "(1 as Uint(3))",
                                        "3 as Uint(8)", "1 / 0", "2 if true else 3", "129 as Uint(8)",
                                        "129 as Uint(8)", "128 as Uint(8)", "0 as Uint(8)", "130 as Uint(128)",
                                        "340282366920938463463374607431768211455 as Uint(128)", "1 % 1", "7 / 2",
                                        "127 + (2 as Uint(8))", "128 if false else 129", "1 == 1", "-(-8)"])
    return f"Uint({rng.choice(WIDTHS)})"


def change_type(rng, src):
    ms = list(re.finditer(r"(?<=: |> |s )(Uint\([^()]*\)|Int|Bool|Void)\b|(?<=: |> |s )Uint\([^()]*\)",
                          src))
    if not ms:
        return src
    m = rng.choice(ms)
    return src[:m.start()] + some_type(rng) + src[m.end():]


def change_literal(rng, src):
    ts = [t for t in tokens(src) if t.type.endswith("_literal") or t.type in ("keyword_true",
                                                                             "keyword_false")]
    ts = [t for t in ts if t.type != "string_literal"]
    if not ts:
        return src
    t = rng.choice(ts)
    if t.type.startswith("keyword"):
        new = rng.choice(["1", "0", "(1 as Uint(8))", "(1 == 1)", "(false)"])
    else:
        new = rng.choice(["true", "false", "0", "1", "128", "(2 as Uint(8))", "(0 as Uint(1))",
                          "(1 < 2)", "170141183460469231731687303715884105727"])
    return replace(src, t, new)


def change_operator(rng, src):
    ts = [t for t in tokens(src) if text(src, t) in BINARY]
    if not ts:
        return src
    return replace(src, rng.choice(ts), rng.choice(BINARY))


def wrap(rng, src):
    """Puts parentheses, a prefix operator or a conversion around some name or literal."""
    toks = tokens(src)
    ts = [t for i, t in enumerate(toks)
          if (t.type == "identifier" or t.type.endswith("_literal"))
          and t.type != "string_literal" and i + 1 < len(toks) and i
          and text(src, toks[i + 1]) not in (":", "(", "=") and toks[i - 1].type not in DECLARING]
    if not ts:
        return src
    t = rng.choice(ts)
    x = text(src, t)
    new = rng.choice([f"({rng.choice('+-~!')}{x})", f"({x} as {some_type(rng)})",
                      f"({x} == {x})", f"({x} if true else {rng.choice(['1', 'true', x])})",
                      f"({x} if {x} else {x})", f"({x} {rng.choice(BINARY)} 1)",
                      f"({x} {rng.choice(BINARY)} true)", f"({x} {rng.choice(BINARY)} {x})",
                      f"(1 if {rng.choice(['1', 'false', '(1 == 2)'])} else {x})", f"assert({x})"])
    return replace(src, t, new)


def change_call(rng, src):
    ms = [m for m in re.finditer(r"\b([fg]\d+|assert)\(", src)
          if not src[:m.start()].endswith("function ")]
    if not ms:
        return src
    m = rng.choice(ms)
    depth, i, commas = 1, m.end(), []
    while depth and i < len(src):
        depth += (src[i] == "(") - (src[i] == ")")
        if depth == 1 and src[i] == ",":
            commas.append(i)
        i += 1
    inner = src[m.end():i - 1]
    k = rng.randrange(5)
    if k == 0:
        new = inner + (", " if inner.strip() else "") + rng.choice(["1", "true", "(1 as Uint(8))"])
    elif k == 1:
        new = "" if not commas else inner[:commas[-1] - m.end()]
    elif k == 2 and commas:
        a = inner[:commas[0] - m.end()]
        b = inner[commas[0] - m.end() + 1:]
        new = b.strip() + ", " + a
    elif k == 3:
        new = rng.choice(["1", "true", "(1 as Uint(8))"]) + \
            (inner[commas[0] - m.end():] if commas else "")
    else:
        new = inner
    return src[:m.end()] + new + src[i - 1:]


STATEMENTS = ["break;", "continue;", "return;", "return 1;", "return true;", "return assert(true);",
              "let zz: Void;", "let zz: Uint(0);", "let zz: Uint(129) = 0;", "let zz = assert(true);",
              "if 1 { }", "while 0 { }", "if true { break; }", "while false { break; }",
              "while false { if true { continue; } }", "{ break; }", "static_assert(1);",
              "static_assert(true);", "assert(1);", "assert(true == true);", "assert();",
              "assert(true, true);", "const zz: Bool = 1;", "const zz: Uint(4) = 15;",
              "const zz: Uint(4) = 16;", "let zz: Uint(4) = true;", "let zz: Int = 1 as Uint(4);",
              "let zz: Int = (1 as Uint(4)) as Int;", "let zz = 1; zz = true;",
              "let zz: Uint(4) = 3; zz = 3 as Uint(5);", "let zz: Uint(4); zz = 17;",
              "let zz: Bool; zz = zz;", "if true { } else if 1 { }", "let zz: Void = assert(true);",
              "let zz = assert(true); zz = zz;", "while true { break; }",
              "let zz: Uint(4) = 1; zz = 1 == 1;", "return (1 as Uint(8));", "return 0 - 1;"]


def insert_typed(rng, src):
    return insert_statement(rng, src, rng.choice(STATEMENTS))


def change_requires(rng, src):
    ms = list(re.finditer(r"requires [^{]*\{|\{", src))
    heads = [m for m in re.finditer(r"^function [^\n]*?(?: requires [^\n]*)? \{$", src, re.M)]
    if not heads:
        return src
    m = rng.choice(heads)
    h = re.sub(r" requires .*", "", m.group(0)[:-2])
    e = rng.choice(["true", "1", "1 == 1", "false", "1 == 2", "(1 as Uint(1))", "1 / 0 == 1", "!true"])
    return src[:m.start()] + f"{h} requires {e} {{" + src[m.end():]


TYPE_MUTATIONS = [change_type, change_type, change_literal, change_operator, change_operator, wrap,
                  wrap, change_call, insert_typed, insert_typed, change_requires]


def mutate_types(rng, src):
    for _ in range(rng.choice([1, 1, 1, 2])):
        src = rng.choice(TYPE_MUTATIONS)(rng, src)
    return src


# ------------------------------------------------------------ failures

def loop_statement(rng, depth=0):
    """A loop whose iterations differ: they assign, read, skip, leave and declare at some counts."""
    i, x, y = (f"z{c}{depth}" for c in "ixy")
    n = rng.randrange(1, 6)
    out = [f"let {i} = 0;", rng.choice([f"let {y}: Int;", f"let {y} = {rng.randrange(3)};"])]
    body = [f"{i} = {i} + 1;"]
    declared_x = rng.random() < .8
    if declared_x:
        body.append(rng.choice([f"let {x}: Int;", f"let {x}: Int;", f"let {x} = {i};"]))
    else:
        out.append(rng.choice([f"let {x}: Int;", f"let {x} = 0;"]))
    for _ in range(rng.randrange(1, 5)):
        if depth < 1 and rng.random() < .2:
            body.append(loop_statement(rng, depth + 1))
            continue
        what = rng.choice([f"{x} = {i};", f"{x} = {i};", f"{y} = {x};", f"{y} = {x};", f"{y} = {i};", f"{x} = {y};",
                           "continue;", "break;", f"assert({i} {rng.choice(['!=', '<', '=='])} {rng.randrange(n + 2)});",
                           f"assert({x} <= {i});", f"let {x}b = {x}; {y} = {x}b;"])
        if rng.random() < .75:
            what = f"if {i} {rng.choice(['==', '!=', '<', '>='])} {rng.randrange(1, n + 1)} {{ {what} }}"
            if rng.random() < .3:
                what += rng.choice([f" else {{ {x} = {i}; }}", f" else {{ {y} = {x}; }}"])
        body.append(what)
    out.append(f"while {i} < {n} {{ {' '.join(body)} }}")
    if rng.random() < .5:
        out.append(f"assert({y} {rng.choice(['==', '!=', '<'])} {rng.randrange(n + 2)});")
    return " ".join(out)


def inject_failure(rng, src):
    """A statement that fails if it is executed, somewhere in a function body."""
    if rng.random() < .15:
        return insert_statement(rng, src, loop_statement(rng))
    ids = [text(src, t) for t in declared(src)]
    x = rng.choice(ids) if ids else "1"
    w = rng.choice(WIDTHS)
    s = rng.choice([
        "assert(false);", "let zz: Int; let zy = zz;", "let zz: Int = 0; let zy = 1 / zz;",
        "let zz: Int = 0; let zy = 1 % zz;", f"let zz: Uint({w}) = 0; let zy = zz / zz;",
        f"let zz: Int = {w}; let zy = (1 as Uint({w})) << (zz as Uint({w}));",
        f"let zz: Int = 0 - 1; let zy = zz as Uint({w});", f"let zz: Int = 0 - 1; let zy: Uint({w}) = zz;",
        "let zz: Int = 170141183460469231731687303715884105727; zz = zz + 1;",
        f"assert({x} == {x});", f"assert({x} != {x});", f"let zz = {x}; assert(zz != zz);",
        f"let zz: Int = {rng.randrange(2)}; let zy = (zz != {rng.randrange(2)}) {rng.choice(['&&', '||'])} "
        f"({rng.randrange(2)} / zz == {rng.randrange(2)});",
        f"let zz: Bool; let zy = ({x} {rng.choice(['==', '!='])} {x}) {rng.choice(['&&', '||'])} "
        f"{rng.choice(['zz', '!zz', '(zz == zz)', '(zz && zz)'])}; assert({rng.choice(['zy', '!zy', 'true'])});",
        f"let zz: Int = 0; let zy = {rng.choice(['1', '(1 / zz)'])} if {x} == {x} else {rng.choice(['1', '(1 / zz)'])};",
        "let zz = true; let zy = zz || 1 / 0 == 1;", "let zz = false; let zy = zz && 1 / 0 == 1;",
        "let zz = true; let zy = 1 if zz else 1 / 0;", "let zz: Bool; if zz { }",
        "let zz: Bool; if false { zz = true; } assert(zz);", "return;", "let zz: Int; zz = 1; assert(zz == 2);",
        f"let zz: Int; if {x} == {x} {{ zz = 1; }} let zy = zz;",
        f"if {x} == {x} {{ }} else {{ assert(false); }}", f"while {x} != {x} {{ assert(false); }}",
        "let zz = 0; while true { zz = zz + 1; if zz == 3 { break; } assert(zz < 3); }",
        "let zz = 0; while zz < 4 { zz = zz + 1; if zz != 2 { continue; } assert(zz == 2); }",
        "let zz = 3; while zz != 0 { let zy: Int; if zz == 1 { zy = 1; assert(zy == zz); } zz = zz - 1; }",
        f"while {x} == {x} {{ break; assert(false); }}", f"while {x} == {x} {{ if {x} == {x} {{ break; }} assert(false); }}",
        "let zz = 0; while zz < 2 { zz = zz + 1; while true { break; } continue; assert(false); }",
        "let zz = true; while zz { zz = !zz; if zz { assert(false); } continue; }",
        f"static_assert({rng.choice(['1 == 1', '1 == 2', 'true', 'false', '2 < 1'])});"])
    return insert_statement(rng, src, s)
