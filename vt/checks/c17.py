"""C17: HTML output is well formed and preserves the document."""
from ..core import Check, problem_of
from .. import gen_bmd, html as H, ref_bmd as R
from ..ref_lex import lex
from .c16 import Where

SKELETON = [("open", "html", {}), ("open", "head", {}),
            ("close", "head"), ("open", "body", {}), ("close", "body"), ("close", "html")]
SHEETS = ["/css/a.css", "b c.css", 'q="1"&x.css', "<d>.css", "e.css", "", "/css/a.css"]


def tokenizes(code):
    return lex(code)[1] is None


def code_texts(evs):
    """The text of every code and pre element, in order."""
    out, inside = [], 0
    for e in evs:
        if e[0] == "open" and e[1] in ("code", "pre"):
            inside += 1
            out.append("")
        elif e[0] == "close" and e[1] in ("code", "pre"):
            inside -= 1
        elif e[0] == "text" and inside:
            out[-1] += e[1]
    return out


def flat(expected):
    out = []
    for e in expected:
        out.append(("text", e[1]) if e[0] == "code" else e)
    return out


class C17(Check):
    id = "C17"
    rule = ("BMD documents as for C16, converted to HTML; distinct by source; oracle: a strict reader of the output "
            "(balanced tags, quoting, escaping) whose events must equal those the reference document calls for "
            "(tags, attributes, order, text up to white space, code verbatim), or the reference error; the coloured "
            "output must be the plain one plus colour codes; sanitizers, assertions, allocation ledger")

    def cases(self, tier):
        return 160000 if tier == "quick" else 2500000

    def case(self, ctx, i):
        rng = ctx.rng
        # mostly documents that parse
        src = gen_bmd.make(rng, i if i % 3 == 0 else rng.randrange(3))
        options, sheets = "", None
        if i % 4 == 1:
            sheets = SHEETS[:rng.randrange(8)]
            options = f":n{rng.choice([0, 1, 3, 4, 8])}:y{len(sheets)}"
        r = ctx.ask("bmd", src, "hd" + ("H" if i % 4 == 0 else "") + options)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        if r["unfreed"]:
            ctx.fail(f"{r['unfreed']} bytes of the memory resource were not returned", source=src)
        if i % 8 == 3:
            ctx.out_of_memory("bmd", src, "ah" + options)
        g = r["result"]
        ctx.stats["evaluations"] += 1
        try:
            root = R.parse(src)
        except R.BmdError:
            if "html" in g:
                ctx.fail("HTML for a document that does not parse", source=src, html=g["html"])
            ctx.stats.hit("parse error")
            return
        ctx.stats.saw(src)
        try:
            want, err = R.html(src, root, tokenizes), None
        except R.DocError as e:
            err = e
        if g["stage"] == "parse":
            ctx.stats.hit("rejected by the parser only")      # C16 reports that
            return
        if err is not None:
            ctx.stats.hit(err.code)
            if g["stage"] != "html":
                ctx.fail(f"converted, although there is {err.code} at {err.at}", source=src, html=g.get("html"))
            if R.DOC_CODES[g["code"]] != err.code:
                ctx.fail(f"{R.DOC_CODES[g['code']]} instead of {err.code}", source=src)
            if g["pos"][0] != err.at or tuple(g["pos"][1:]) != tuple(Where(src).at[err.at]):
                ctx.fail(f"{err.code} at {g['pos']} instead of offset {err.at}", source=src)
            return
        ctx.stats.hit("converted")
        if g["stage"] != "ok":
            ctx.fail(f"a convertible document is refused with {R.DOC_CODES[g['code']]}", source=src)
        out = g["html"]
        if not out.startswith("<!DOCTYPE html>"):
            ctx.fail("the document type is missing", source=src, html=out)
        try:
            evs = H.events(out[len("<!DOCTYPE html>"):])
        except H.NotWellFormed as e:
            ctx.fail(f"not well formed: {e}", source=src, html=out)
        links = [e for e in evs if e[0] == "empty" and e[1] == "link"]
        if sheets is not None:
            ctx.stats.hit("options")
            if [e[2].get("href") for e in links] != sheets:
                ctx.fail(f"stylesheets {links} instead of {sheets}", source=src, html=out)
        for e in links:
            if e[2].get("rel") != "stylesheet" or sheets is None and not e[2].get("href", "").endswith(".css"):
                ctx.fail(f"wrong stylesheet link {e}", source=src, html=out)
        full = SKELETON[:2] + links + SKELETON[2:4] + flat(want) + SKELETON[4:]
        have, need = H.normal(evs), H.normal(full)
        if have != need:
            k = next((k for k, (x, y) in enumerate(zip(have, need)) if x != y), min(len(have), len(need)))
            ctx.fail(f"wrong content: {have[k:k + 2]} instead of {need[k:k + 2]}", source=src, html=out)
        verbatim = []
        for k, e in enumerate(want):
            if e[0] == "open" and e[1] in ("code", "pre"):
                verbatim.append(want[k + 1][1] if want[k + 1][0] == "code" else None)
        for a, b in zip(code_texts(evs), verbatim):
            if b is not None and a.strip(" \t\r\n") != b.strip(" \t\r\n"):
                ctx.fail(f"code changed: {a!r} instead of {b!r}", source=src, html=out)
        if "colored" in g:
            ctx.stats.hit("coloured")
            if not g["colored_ok"] or H.ANSI.sub("", g["colored"]) != out:
                ctx.fail("the coloured output is not the plain output plus colours", source=src, html=out,
                         colored=g["colored"])
        for e in want:
            if e[0] in ("open", "empty"):
                ctx.stats.hit(f"<{e[1]}>" if not e[2] else f"<{e[1]} ...>")
            elif e[0] == "code":
                ctx.stats.hit("highlighted code" if e[2] else "other code")
        if i % 4999 == 1:
            ctx.stats.sample({"source": src[:200], "html": out[:300]})

    def finish(self, stats):
        c = stats.cover
        need = ["converted", "highlighted code", "other code", "coloured", "options", "meta_not_at_start_of_file",
                "duplicate_meta_entry", "invalid_language", "invalid_architecture", "number_attribute_not_allowed",
                "code_tokenization_failure"]
        return [f"never observed: {k}" for k in need if not c[k]]


CHECK = C17()
