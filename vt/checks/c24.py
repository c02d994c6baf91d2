"""C24: dumps are complete and faithful, and colours only add terminal escapes."""
import re

from .. import gen_bmd, gen_prog, gen_syntax, ref_bmd, ref_lex, ref_parse, soup
from ..core import Check, problem_of
from . import c03, c14

SGR = re.compile(r"\x1b\[([0-9;]*)m")
NAMES = {
    "Function": ["annotations", "parameters", "return_type", "requires_clause", "body"],
    "Parameter": ["type"], "Type": ["width"], "Const": ["annotations", "type", "initializer"],
    "Let": ["annotations", "type", "initializer"], "Static_Assert": ["expression"],
    "If_Statement": ["annotations", "condition", "if_block", "else_block"],
    "While_Statement": ["annotations", "condition", "block"], "Return_Statement": ["expression"],
    "Assignment": ["annotations", "expression"], "Conversion_Expression": ["expression", "target_type"],
    "If_Expression": ["left", "condition", "right"], "Binary_Expression": ["left", "right"],
    "Prefix_Expression": ["expression"],
}


def token_lines(src):
    toks, _ = ref_lex.lex(src)
    out = []
    for t in toks:
        s = f"{t.line + 1:>2}:{t.column + 1:>2}: {t.type}"
        if t.type not in ref_lex.SPELLING:
            s += f"({src[t.begin:t.begin + t.length]})"
            if t.length > 1:
                s += f" ({t.length} characters)"
        out.append(s + "\n")
    return "".join(out)


def ast_lines(src, node, width, name="", level=0, out=None):
    """The dump as a list of (text before the node's number, text behind it) pairs."""
    out = [] if out is None else out
    label = name + "=" if name else ""
    if node is None:
        out.append((" " * (width * level), f"{label}null\n", False))
        return out
    t = node.tok
    out.append((" " * (width * level), f":{label}{node.kind}({src[t.begin:t.begin + t.length]})\n", True))
    names = NAMES.get(node.kind)
    for k, c in enumerate(node.kids):
        ast_lines(src, c, width, names[k] if names else "", level + 1, out)
    return out


def match_ast(text, lines):
    """The first difference of a dump from the expected lines; nodes have numbers of their own."""
    at, seen = 0, set()
    for before, behind, numbered in lines:
        if not text.startswith(before, at):
            return at, before + "..."
        at += len(before)
        if numbered:
            m = re.compile(r"\d+").match(text, at)
            if not m or m.group() in seen:
                return at, "the number of a node"
            seen.add(m.group())
            at = m.end()
        if not text.startswith(behind, at):
            return at, behind
        at += len(behind)
    return None if at == len(text) else (at, "nothing")


def cut(text, limit):
    out, n = [], 0
    for c in text:
        if n >= limit:
            out.append(" ...")
            break
        if c in "\r\t\n":
            out.append({"\r": "\\r", "\t": "\\t", "\n": "\\n"}[c])
            n += 2
        else:
            out.append(c)
            n += 1
    return "".join(out)


def bmd_lines(src, node, width, limit, level=0):
    """The dump of a document that was parsed; the tree itself is judged by C16."""
    pad = " " * (width * level)
    if node is None:
        return pad + "null\n"
    b, n = node["p"][:2]
    out = pad + ("\\" + node["id"] if "id" in node else node["n"]) + "(" + cut(src[b:b + n], limit) + ")\n"
    for k in node.get("args", {}):
        pb, pn = node["args"][k][1][:2]
        out += f"{pad}{k}: {src[pb:pb + pn]}\n"
    kids = node.get("c", [])
    if "id" in node:
        kids = [node["block"]]
    for c in kids:
        out += bmd_lines(src, c, width, limit, level + 1)
    return out


def colour_problem(src, plain, colored):
    if "\x1b" in src:
        return None
    if "\x1b" in plain:
        return "text without colours contains terminal escapes"
    if SGR.sub("", colored) != plain:
        return "colours change the text"
    last = SGR.findall(colored)
    if last and last[-1] not in ("0", ""):
        return "colours are not reset at the end"
    return None


class C24(Check):
    id = "C24"
    rule = ("generated programs, documents, token soups and erroneous sources; distinct by source and options; "
            "oracle: the token and tree dumps written from the reference lexer and parser; every text printed "
            "with and without colours")

    def cases(self, tier):
        return 24000 if tier == "quick" else 800000

    def ask(self, ctx, kind, src, flags):
        r = ctx.ask(kind, src, flags, 5)
        p = problem_of(r)
        if p is not None:
            if p["kind"] == "hang" and "while" in src:
                return None
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        ctx.stats["evaluations"] += 1
        return r["result"]

    def colours(self, ctx, src, what, plain, colored):
        d = colour_problem(src, plain, colored)
        ctx.stats[f"colours_{what}"] += 1
        if d:
            ctx.fail(f"{what}: {d}", source=src, plain=plain, colored=colored)

    def case(self, ctx, i):
        rng = ctx.rng
        k = i % 6
        width = rng.choice([2, 2, 0, 1, 4, 7])
        if k == 5 or k == 4:
            return self.document(ctx, i, width)
        if k == 0:
            src = soup.soup(rng) if rng.random() < .5 else soup.mutate(rng, rng.choice(soup.corpus()))
        elif k == 1:
            src = c03.make(ctx, 10 ** 6 + i * 7 % 5000)[1]
        elif k == 2:
            src = gen_prog.Gen(rng, functions=2, consts=3, depth=rng.choice([2, 3, 5])).program()
            if rng.random() < .5:
                src = c14.squeeze(rng, src)
        else:
            src = c14.CHECK.make(ctx, rng.randrange(3, 10))
        ctx.stats.saw(src, width)
        r = self.ask(ctx, "bms", src, f"tpd:w{width}" + (":gb0" if rng.random() < .5 else ":gc0"))
        if r is None:
            return
        want = token_lines(src)
        if r["printed_tokens"] != want:
            ctx.fail("the token dump is not the list of tokens", source=src, got=r["printed_tokens"], want=want)
        ctx.stats["tokens_listed"] += want.count("\n")
        if "rendered" in r:
            self.colours(ctx, src, "diagnostic", r["rendered"], r["rendered_colored"])
        if "printed" in r:
            try:
                tree = ref_parse.parse(src)
            except RecursionError:
                return
            except (ref_parse.ParseError, ref_lex.LexError):
                ctx.fail("an invalid program is dumped", source=src)
            lines = ast_lines(src, tree, width)
            d = match_ast(r["printed"], lines)
            if d:
                ctx.fail(f"the syntax tree dump has {r['printed'][d[0]:d[0] + 60]!r} instead of {d[1]!r}",
                         source=src, printed=r["printed"])
            self.colours(ctx, src, "tree", r["printed"], r["printed_colored"])
            for n in tree.walk():
                ctx.stats.hit("dumped:" + n.kind)
            ctx.stats["nodes_listed"] += len(lines)
        if r.get("gen", {}).get("ok"):
            g = r["gen"]
            if not g["plain_same"]:
                ctx.fail("printing generated code without colours changes it", source=src)
            self.colours(ctx, src, "code", g["text"], g["colored"])
        if i % 4001 == 2:
            ctx.stats.sample({"source": src[:200], "printed": r.get("printed", "")[:300]})

    def document(self, ctx, i, width):
        rng = ctx.rng
        limit = rng.choice([30, 30, 0, 1, 5, 80])
        src = gen_bmd.make(rng, i // 6)
        if rng.random() < .3:
            src = gen_bmd.mutate(rng, src)
        ctx.stats.saw(src, width, limit)
        r = self.ask(ctx, "bmd", src, f"apdhH:w{width}:m{limit}")
        if "rendered" in r:
            self.colours(ctx, src, "document diagnostic", r["rendered"], r["rendered_colored"])
        if "printed" in r:
            want = bmd_lines(src, r["ast"], width, limit)
            if SGR.sub("", r["printed"]) != SGR.sub("", want):
                ctx.fail("the dump of the document is not its tree", source=src, got=r["printed"], want=want)
            self.colours(ctx, src, "document", r["printed"], r["printed_colored"])
            ctx.stats["document_nodes"] += want.count("\n")
        if "colored" in r and r["stage"] == "ok":
            if "\x1b" not in src and SGR.sub("", r["colored"]) != r["html"]:
                ctx.fail("colours change the HTML", source=src)
            ctx.stats["colours_html"] += 1

    def finish(self, stats):
        need = [k for k in NAMES if not stats.cover["dumped:" + k]]
        out = [f"never dumped: {k}" for k in need]
        for k in ("diagnostic", "tree", "code", "document diagnostic", "document", "html"):
            if stats[f"colours_{k}"] < 100:
                out.append(f"too few: {k}")
        return out


CHECK = C24()
