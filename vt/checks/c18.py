"""C18: highlighted code shows exactly the original code."""
from ..core import Check, problem_of
from .. import html as H, ref_lex, ref_parse, soup
from . import c03, c14

PRE = "<!DOCTYPE html>\n"
KIND = {"identifier": "c-idn", "string_literal": "c-str", "block_comment": "c-com", "line_comment": "c-com",
        "double_right_arrow": "c-err", "keyword_true": "c-bol", "keyword_false": "c-bol",
        "keyword_uint": "c-typ", "keyword_int": "c-typ", "keyword_bool": "c-typ", "keyword_void": "c-typ"}
for k in ("left_parenthesis", "right_parenthesis", "left_brace", "right_brace"):
    KIND[k] = "c-bra"
for k in ("binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal"):
    KIND[k] = "c-int"
for k in ("at", "dot", "colon", "comma", "semicolon", "right_arrow"):
    KIND[k] = "c-pun"


def kind(t):
    if t in KIND:
        return KIND[t]
    return "c-key" if t.startswith("keyword_") else "c-opr"


class C18(Check):
    id = "C18"
    rule = ("BMS code: corpus, generated and mutated programs, fragments, token soup, bytes, with every kind of white "
            "space, comment and HTML special character; highlighted on its own and inside an element, plain and in "
            "colours; distinct by source; oracle: strict reader, reference lexer for token boundaries and kinds, "
            "byte equality of the text")

    def cases(self, tier):
        return 80000 if tier == "quick" else 2500000

    def make(self, ctx, i):
        rng = ctx.rng
        k = i % 8
        if k == 0:
            return soup.soup(rng)
        if k == 1:
            return rng.choice(soup.corpus())
        if k == 2:
            return soup.mutate(rng, rng.choice(soup.corpus()))
        if k == 3:
            return c03.make(ctx, 10 ** 6 + i)[1]
        if k == 4:
            return "".join(chr(rng.randrange(256)) for _ in range(rng.choice([0, 1, 5, 100])))
        src = c14.program(rng)
        if k == 5:
            a, b = sorted(rng.randrange(len(src) + 1) for _ in range(2))
            src = src[a:b]
        if k == 6:
            out = []
            for c in src:
                if c == " " and rng.random() < .3:
                    c = rng.choice(["\t", "\r\n", "  ", "/*\n<&>\t*/", "// \"<x y='1'>&amp;\n", " \n\t ", "\r", "/**/"])
                    if rng.random() < .01:
                        c = soup.long_piece(rng)
                out.append(c)
            src = "".join(out)
        if k == 7:
            src = soup.mutate_tokens(rng, src)
        return src

    def case(self, ctx, i):
        src = self.make(ctx, i)
        inside = i % 2
        r = ctx.ask("hl", src, "p" if inside else "-")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        if r["unfreed"]:
            ctx.fail(f"{r['unfreed']} bytes of the memory resource were not returned", source=src)
        g = r["result"]
        ctx.stats["evaluations"] += 1
        ctx.stats.saw(src)
        tokens, err = ref_lex.lex(src)
        out = g["html"]
        if "\x1b" not in src and H.ANSI.sub("", g["colored"]) != out:
            ctx.fail("the coloured output is not the plain output plus colours", source=src, html=out, colored=g["colored"])
        if not out.startswith(PRE):
            ctx.fail("the preamble is missing", source=src, html=out)
        try:
            evs = H.events(out[len(PRE):])
        except H.NotWellFormed as e:
            ctx.fail(f"not well formed: {e}", source=src, html=out)
        if inside:
            if evs[0] != ("open", "pre", {}) or evs[-1] != ("close", "pre"):
                ctx.fail("the surrounding element is damaged", source=src, html=out)
            evs = evs[1:-1]
        text = "".join(e[1] for e in evs if e[0] == "text")
        if err is not None:
            ctx.stats.hit("not tokenizable")
            if g["stage"] != "tokenize":
                ctx.fail(f"code that cannot be tokenized is highlighted ({g['stage']})", source=src, html=out)
            if text != src:
                ctx.fail("code that cannot be tokenized appears changed", source=src, html=out)
            return
        if g["stage"] == "tokenize":
            ctx.fail("code is reported as not tokenizable", source=src)
        try:
            ref_parse.parse(src)
            good = "ok"
        except ref_parse.ParseError:
            good = "parse"
        except RecursionError:
            good = g["stage"]
        if g["stage"] != good:
            ctx.fail(f"highlighting answers {g['stage']} instead of {good}", source=src)
        ctx.stats.hit("valid program" if good == "ok" else "only tokens")
        # between the first and the last token everything must be there; white space around is free
        lead = text[:len(text) - len(text.lstrip(" \t\r\n"))]
        tail = text[len(text.rstrip(" \t\r\n")):] if text.strip(" \t\r\n") else ""
        core = text.strip(" \t\r\n")
        want = src[tokens[0].begin:tokens[-1].begin + tokens[-1].length] if tokens else ""
        body = text[len(lead):]
        if not (body.startswith(want) and body[len(want):].strip(" \t\r\n") == ""):
            ctx.fail(f"the text is {core[:200]!r} instead of {want[:200]!r}", source=src, html=out, tail=tail)
        marks, at = [], 0
        stack = []
        for e in evs:
            if e[0] == "open":
                stack.append((e[1], e[2], at))
            elif e[0] == "close":
                name, attrs, begin = stack.pop()
                marks.append((name, attrs, text[begin:at]))
            elif e[0] == "text":
                at += len(e[1])
            else:
                ctx.fail(f"unexpected element {e}", source=src, html=out)
        need = [(kind(t.type), {}, src[t.begin:t.begin + t.length]) for t in tokens]
        if marks != need:
            k = next((k for k, (x, y) in enumerate(zip(marks, need)) if x != y), min(len(marks), len(need)))
            ctx.fail(f"wrong marks: {marks[k:k + 2]} instead of {need[k:k + 2]}", source=src, html=out)
        for t in tokens:
            ctx.stats.hit(t.type)
        if i % 4999 == 1:
            ctx.stats.sample({"source": src[:200], "html": out[:300]})

    def finish(self, stats):
        names = set(ref_lex.SPELLING) | {"identifier", "string_literal", "block_comment", "line_comment",
                                         "binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal"}
        return [f"never observed: {k}" for k in sorted(names | {"not tokenizable", "only tokens", "valid program"})
                if not stats.cover[k]]


CHECK = C18()
