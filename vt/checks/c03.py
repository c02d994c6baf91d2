"""C03: the BMS parser against a reference parser written from the grammar."""
from ..core import Check, problem_of
from .. import gen_syntax, ref_lex, ref_parse, soup

SMALL = ["(", ")", "a", "1", "+", "==", "&&", "if", "else", "as", "Int", "-", ",", "f", "@", "!",
         "true", "=", '"s"', "<"]
STMT = ["{", "}", ";", "a", "=", "1", "if", "else", "while", "let", "const", "return", "break", "@",
        "(", ")", ":", "Int", "continue", "static_assert", "f", ",",
        "{ }", "else { }", "if a { }", "while a { }", "( )", "@ a", "a = 1 ;", "let a = 1 ;", "f ( ) ;",
        "return a ;", "@ a ( 1 )", ": Int"]

CHUNKS = ["{ }", "else { }", "else { }", "if a { }", "while a { }", "@ a", "a = 1 ;", "let a = 1 ;", "f ( ) ;",
          "return a ;", "@ a ( 1 )", "break ;", "else", "if a", "{", "}", ";", "const a : Int = 1 ;",
          "static_assert ( a ) ;", "let a : Int ;", "let a", "= 1 ;"]
EXPR_CHUNKS = ["a", "a", "1", "( a )", "+ a", "- a", "* a", "== a", "< 1", "&& a", "|| a", "& a", "<< 1",
               "as Int", "as Uint ( 8 )", "if a else b", "if a", "else", "f ( )", "f ( a , b )", "!", "~",
               "f ( a ,", ")", "(", "true"]
DECLS = ["function f ( )", "-> Int", "{ }", "requires true", "( a : Int )", "function f", "const a = 1 ;",
         "a : Int", ", b : Uint ( 8 )", "(", ")", "let a = 1 ;", "static_assert ( a ) ;", "@ a", "@ a ( b = 1 )",
         "@ a ( 1 , 2 )", "{ return 1 ; }", "requires", "->", "const a", ": Int", "= 1 ;", ";",
         "function f ( a : Uint ( n ) ) -> Uint ( n ) { }", "( b = true", "( \"s\" )"]


def make(ctx, i):
    rng = ctx.rng
    files = soup.corpus()
    if i < len(files):
        return "corpus", files[i]
    k = i % 20
    if k < 4:
        return "grammar", gen_syntax.program(rng, comments=rng.choice([0, 0, .1]))
    if k < 9:
        return "mutated", soup.mutate_tokens(rng, gen_syntax.program(rng))
    if k == 9:
        return "mutated_file", soup.mutate_tokens(rng, rng.choice(files))
    if k == 10:
        return "expr_tokens", "const a = " + " ".join(
            rng.choice(SMALL) for _ in range(rng.randrange(1, 9))) + " ;"
    if k == 11:
        return "stmt_tokens", "function f() -> Int { " + " ".join(
            rng.choice(STMT) for _ in range(rng.randrange(1, 9))) + " }"
    if k == 12:
        g = gen_syntax.G(rng, 12)
        g.p("const", "a", "=")
        g.expression()
        g.p(";")
        return "expression", gen_syntax.join(rng, g.out)
    if k in (16, 17):
        return "stmt_chunks", "function f ( ) -> Int { " + " ".join(
            rng.choice(CHUNKS) for _ in range(rng.randrange(1, 6))) + " }"
    if k == 18:
        return "expr_chunks", "const a = " + " ".join(
            rng.choice(EXPR_CHUNKS) for _ in range(rng.randrange(1, 7))) + " ;"
    if k == 19:
        return "decl_chunks", " ".join(rng.choice(DECLS) for _ in range(rng.randrange(1, 8)))
    if k == 13:
        s = gen_syntax.program(rng)
        toks, _ = ref_lex.lex(s)
        cut = rng.randrange(len(toks) + 1)
        return "prefix", s[:toks[cut].begin] if cut < len(toks) else s
    if k == 14:
        return "soup", soup.soup(rng, bad=0)
    if i % 160 == 15:
        return "nested", gen_syntax.nested(rng, rng.choice([5, 20, 60, 120]))
    return "soup_program", soup.mutate_tokens(rng, gen_syntax.program(rng, 10), 1)


class C03(Check):
    id = "C03"
    rule = ("one source per case (corpus, grammar derivations, token-level mutations, short token "
            "strings in an expression or statement frame, truncations, nesting up to 120 levels); "
            "distinct by the sequence of token types; oracle: reference parser, whole tree with "
            "names, operators, literals and positions, or the place of the error")

    def cases(self, tier):
        return 240000 if tier == "quick" else 6000000

    def case(self, ctx, i):
        kind, src = make(ctx, i)
        if ctx.rng.random() < .08:
            src = gen_syntax.commented(ctx.rng, src)
            ctx.stats.hit("comments inserted")
        r = ctx.ask("bms", src, "aP")
        ctx.stats["evaluations"] += 1
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"parsing fails: {p['kind']}: {p['what']}", source=src, how=kind)
        res = r["result"]
        toks, err = ref_lex.lex(src)
        ctx.stats.hit("kind:" + kind)
        if err is not None:
            ctx.stats["not_lexed"] += 1
            if res["stage"] != "tokenize":
                ctx.fail("source with a lexical error was parsed", source=src)
            return
        ctx.stats.saw([t.type for t in toks])
        want = None
        try:
            want = ref_parse.Parser(toks).program()
        except ref_parse.ParseError as e:
            perr = e
        if want is not None:
            if res["stage"] != "parsed":
                ctx.fail(f"valid program rejected: stage {res['stage']}, rule {res.get('code')} at "
                         f"{res.get('pos')}", source=src, how=kind)
            ctx.stats["accepted"] += 1
            d = diff(want.dump(), res["ast"])
            if d:
                ctx.fail("syntax tree differs: " + d, source=src, how=kind)
            for n in want.walk():
                ctx.stats.hit("node:" + n.kind + (":" + n.op if n.op else ""))
            if i % 9973 == 0:
                ctx.stats.sample({"source": src[:300], "outcome": "accepted"})
            return
        ctx.stats["rejected"] += 1
        ctx.stats.hit("error:" + str(res.get("code")))
        if res["stage"] != "parse":
            ctx.fail(f"invalid program accepted (invalid at {perr.tok!r}, end={perr.at_end})",
                     source=src, how=kind)
        if i % 9973 == 0:
            ctx.stats.sample({"source": src[:300], "outcome": "rejected", "pos": res["pos"]})
        got = res["pos"]
        tok = perr.tok
        limit = [0, 0, 0] if tok is None else [tok.begin, tok.line, tok.column]
        if tok is not None:
            t = next((t for t in toks if t.begin == got[0]), None)
            if t is None or [t.line, t.column] != got[1:] or t.type != res["token"]:
                ctx.fail(f"parse error at {got} ({res['token']}) is not at a token", source=src)
            if t.type in res["expected"] and not perr.at_end:
                ctx.fail(f"parse error expects {res['expected']} but rejects such a token at {got}",
                         source=src)
        if not res["expected"]:
            ctx.fail("parse error expects nothing", source=src)
        # `a & b == c` may be reported at `&` or at `==`: within comparisons any earlier token of
        # the same statement is accepted, otherwise the place is unique
        if got != limit:
            between = [t for t in toks if got[0] <= t.begin <= limit[0]]
            if got[0] > limit[0] or not any(t.type in ref_parse.COMPARE for t in toks
                                            if t.begin >= got[0]) \
                    or any(t.type == "semicolon" for t in between[:-1]):
                ctx.fail(f"parse error reported at {got}, the program stops being valid at {limit}",
                         source=src, how=kind)
            ctx.stats["early_error"] += 1
            return
        if i % 2 == 0:
            self.expectations(ctx, src, toks, perr, res["expected"])

    def expectations(self, ctx, src, toks, perr, expected):
        """Every token the error expects really can stand where it is reported."""
        p = ref_parse.Parser(toks)
        before = p.t if perr.at_end else p.t[:p.t.index(perr.tok)]
        for e in expected:
            tok = ref_lex.Tok(e, len(src), 1, 0, 0, "1" if "literal" in e else "x")
            try:
                ref_parse.Parser(before + [tok]).program()
            except ref_parse.ParseError as q:
                if not q.at_end:
                    ctx.fail(f"the parse error expects {e}, but no program continues with it", source=src)
            ctx.stats["expected_tokens"] += 1

    def finish(self, stats):
        out = []
        if stats["accepted"] < 100 or stats["rejected"] < 100:
            out.append("too few accepted or rejected programs")
        return out


def diff(want, got, path=""):
    if want is None or got is None:
        return None if want is got else f"at {path}: expected {short(want)}, got {short(got)}"
    for k in ("n", "p", "name", "stmt", "op", "type", "key", "value"):
        if want.get(k) != got.get(k):
            return f"at {path}/{want['n']}: {k} is {got.get(k)!r}, expected {want.get(k)!r}"
    if len(want["c"]) != len(got["c"]):
        return f"at {path}/{want['n']}: {len(got['c'])} children, expected {len(want['c'])}"
    for j, (a, b) in enumerate(zip(want["c"], got["c"])):
        d = diff(a, b, f"{path}/{want['n']}[{j}]")
        if d:
            return d
    return None


def short(d):
    return "nothing" if d is None else d["n"]


CHECK = C03()
