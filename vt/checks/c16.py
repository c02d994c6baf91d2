"""C16: the BMD parser accepts any document robustly and keeps its text."""
from ..core import Check, problem_of
from .. import gen_bmd, ref_bmd as R
from ..ref_lex import advance


class Where:
    """Line and column of offsets of a source."""

    def __init__(self, src):
        self.at = [(0, 0)]
        line = col = 0
        for c in src:
            line, col = advance(c, line, col)
            self.at.append((line, col))

    def span(self, b, e):
        return [b, e - b, *self.at[b]]


def compare(src, w, ref, got, path="root"):
    """What differs between the reference node and the dumped one, or None."""
    if ref is None or got is None:
        return None if ref is got else f"{path}: {'a node' if got else 'nothing'} where the source has " \
            f"{'nothing' if ref is None else 'a ' + ref[0]}"
    if ref[0] != got["n"]:
        return f"{path}: {got['n']} instead of {ref[0]}"
    b, e = ref[1], ref[2]
    if ref[0] == "List":
        # the extent of a list is only bounded: it starts and ends among the blanks around its children
        p, n, line, col = got["p"]
        lo, hi = (ref[3][0][1], ref[3][-1][2]) if ref[3] else (None, None)
        if p + n > len(src) or w.at[min(p, len(src))] != (line, col) or (lo is not None and not (
                min(b, lo) <= p <= lo and hi <= p + n <= max(e, hi))):
            return f"{path}: list at {got['p']}, its elements at {lo}..{hi} in {b}..{e}"
        if len(ref[3]) != len(got["c"]):
            return f"{path}: {len(got['c'])} elements instead of {len(ref[3])}"
        for k, (x, y) in enumerate(zip(ref[3], got["c"])):
            d = compare(src, w, x, y, f"{path}/{k}")
            if d:
                return d
        return None
    if got["p"] != w.span(b, e):
        return f"{path}: {ref[0]} at {got['p']} instead of {w.span(b, e)}"
    if ref[0] == "Text":
        return None if got["text"] == src[b:e] else f"{path}: text {got['text']!r} instead of {src[b:e]!r}"
    if got["id"] != ref[3]:
        return f"{path}: directive {got['id']} instead of {ref[3]}"
    want = {k: [v, w.span(x, y)] for k, (v, x, y) in ref[4].items()}
    if want != got["args"]:
        return f"{path}: arguments {got['args']} instead of {want}"
    return compare(src, w, ref[5], got["block"], path + "/" + ref[3])


class C16(Check):
    id = "C16"
    rule = ("BMD documents: generated valid ones, nearly valid ones, mutated generated and corpus documents, "
            "token soup, bytes, nested and long shapes; distinct by source; oracle: a reference parser for "
            "acceptance, error code and position, tree, texts, arguments and all positions; sanitizers, assertions, "
            "CPU limit and allocation ledger")

    def cases(self, tier):
        return 300000 if tier == "quick" else 4000000

    def case(self, ctx, i):
        src = gen_bmd.make(ctx.rng, i)
        r = ctx.ask("bmd", src, "ad" + ("p" if i % 3 == 0 else ""))
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        if r["unfreed"]:
            ctx.fail(f"{r['unfreed']} bytes of the memory resource were not returned", source=src)
        g = r["result"]
        w = Where(src)
        ctx.stats["evaluations"] += 1
        try:
            ref, err = R.parse(src), None
        except R.BmdError as e:
            err = e
        if err is None:
            if g["stage"] != "ok":
                ctx.fail(f"a valid document is rejected with {R.CODES[g['code']]}", source=src, got=g)
            d = compare(src, w, ref, g["ast"])
            if d:
                ctx.fail("wrong tree: " + d, source=src)
        else:
            if g["stage"] != "parse":
                ctx.fail(f"accepted, although there is {err.code} at {err.pos}", source=src)
            line, col = w.at[err.pos]
            if R.CODES[g["code"]] != err.code:
                ctx.fail(f"rejected with {R.CODES[g['code']]} instead of {err.code}", source=src, got=g["pos"], want=err.pos)
            if g["pos"] != [err.pos, line, col]:
                ctx.fail(f"{err.code} at {g['pos']} instead of {[err.pos, line, col]}", source=src)
        ctx.stats.saw(src)
        ctx.stats.hit("accepted" if err is None else err.code)
        if err is None:
            self.cover(ctx, ref)
        if i % 9999 == 1:
            ctx.stats.sample({"source": src[:200], "outcome": "accepted" if err is None else err.code})

    def cover(self, ctx, n):
        if n is None:
            return
        if n[0] == "List":
            for c in n[3]:
                self.cover(ctx, c)
        elif n[0] == "Directive":
            ctx.stats.hit("\\" + n[3] + ("[]" if n[4] else "") + ("{}" if n[5] else ""))
            self.cover(ctx, n[5])
        else:
            ctx.stats.hit("Text")

    def finish(self, stats):
        c = stats.cover
        return [f"never observed: {k}" for k in ["accepted"] + R.CODES if not c[k]]


CHECK = C16()
