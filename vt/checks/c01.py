"""C01: the tokenizer of BMS against an independent reference lexer."""
from ..core import Check, problem_of
from .. import ref_lex, soup


def make(ctx, i):
    rng = ctx.rng
    k = i % 10
    files = soup.corpus()
    if i < len(files):
        return "corpus", files[i]
    if k < 4:
        return "soup", soup.soup(rng)
    if k < 6:
        return "mutated", soup.mutate(rng, rng.choice(files))
    if k == 6:
        a = rng.choice(files)
        return "truncated", a[:rng.randrange(len(a) + 1)]
    if k == 7:
        return "pairs", "".join(soup.piece(rng, 0.05) for _ in range(rng.randrange(1, 6)))
    if k == 8:
        return "bytes", "".join(chr(rng.randrange(256)) for _ in range(rng.randrange(1, 30)))
    alphabet = rng.choice(["/*\n \"\\", "01234789abxXB_ ", "&|!=<>-+ ", "ab\t\r\n /", "0x1fF 0b",
                           "\"\\\n\ta"])
    return "alphabet", "".join(rng.choice(alphabet) for _ in range(rng.randrange(1, 25)))


class C01(Check):
    id = "C01"
    rule = ("one source text per case (corpus file, token soup, mutation, truncation, byte noise, "
            "small-alphabet strings); counted as distinct by (token type sequence, error code); "
            "oracle: reference lexer written from the language description, plus tiling of the "
            "source by tokens and whitespace")

    def cases(self, tier):
        return 150000 if tier == "quick" else 3000000

    def case(self, ctx, i):
        kind, src = make(ctx, i)
        r = ctx.ask("bms", src, "tT")
        ctx.stats["evaluations"] += 1
        toks, err = ref_lex.lex(src)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"tokenizing fails: {p['kind']}: {p['what']}", source=src, how=kind)
        res = r["result"]
        self.compare(ctx, kind, src, toks, err, res)

    def compare(self, ctx, kind, src, toks, err, res):
        ctx.stats["tokens_checked"] += len(toks)
        ctx.stats.hit("kind:" + kind)
        for t in toks:
            ctx.stats.hit("token:" + t.type)
        ctx.stats.saw([t.type for t in toks], err and err.code)
        got = [list(t) for t in res["tokens"]]
        want = [t.row() for t in toks]
        if got != want:
            n = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b),
                     min(len(got), len(want)))
            ctx.fail(f"token {n} differs: got {got[n:n + 1]}, expected {want[n:n + 1]}",
                     source=src, how=kind, got_count=len(got), want_count=len(want))
        failed = res.get("stage") == "tokenize"
        if failed != (err is not None):
            ctx.fail(f"tokenizer {'rejects' if failed else 'accepts'} the source, reference "
                     f"{'rejects: ' + err.code if err else 'accepts'}", source=src, how=kind,
                     code=res.get("code"))
        if err is not None:
            ctx.stats.hit("error:" + err.code)
            if res["code"] != err.code or list(res["pos"]) != [err.begin, err.line, err.column]:
                ctx.fail(f"tokenizer error {res['code']} at {res['pos']}, expected {err.code} at "
                         f"{[err.begin, err.line, err.column]}", source=src, how=kind)
        # direct tiling: nothing but whitespace between tokens
        pos = 0
        for t in got:
            if src[pos:t[1]].strip(" \r\t\n") != "" or t[1] < pos or t[2] <= 0:
                ctx.fail(f"text between tokens is not whitespace: {src[pos:t[1]]!r}", source=src)
            pos = t[1] + t[2]
        if not failed and src[pos:].strip(" \r\t\n") != "":
            ctx.fail(f"text after the last token was dropped: {src[pos:]!r}", source=src)

    def finish(self, stats):
        return [] if stats["tokens_checked"] > 10000 else ["too few tokens were compared"]


CHECK = C01()
