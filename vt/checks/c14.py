"""C14: rendered diagnostics of BMS programs."""
import re

from ..core import Check, problem_of
from .. import gen_bmd, gen_prog, gen_syntax, mutate_prog as M, ref_bmd, ref_lex, ref_parse, sema_case as S, soup
from . import c03, c15
from .sema import SMALL_OPTS, operand

ANSI = re.compile(r"\x1b\[[0-9;]*m")
FILE = "prog.bms"


def lines_of(src):
    return src.split("\n")


def columns(line):
    """The columns of the offsets in a line."""
    out, col = {0}, 0
    for c in line:
        col = ref_lex.advance(c, 0, col)[1]
        out.add(col)
    return out


def program(rng):
    g = gen_prog.Gen(rng, **dict(SMALL_OPTS, risky=rng.choice([0, .3]), uninit=.1, asserts=True,
                                 missing_return=.1))
    src = g.program()
    for _ in range(rng.choice([0, 1, 2])):
        src += (g.query() or "") + "\n"
    return src


def squeeze(rng, src):
    """Changes the layout: tabs, several statements in a line, CRLF, comments, no final newline."""
    k = rng.randrange(8)
    if k == 0:
        src = src.replace("    ", "\t")
    elif k == 1:
        src = src.replace("\n", " ")
    elif k == 2:
        src = src.replace("\n", "\r\n")
    elif k == 3:
        src = src.replace("\n", "\n\n// comment\n", rng.randrange(4))
    elif k == 4:
        src = src.replace(" ", "\n")
    elif k == 5:
        src = src.replace(" ", " /* x\n y */ ", rng.randrange(1, 6))
    if rng.random() < .5:
        src = src.rstrip("\n")
    return src


class C14(Check):
    id = "C14"
    rule = ("erroneous sources of every stage: lexical noise, syntax mutations and truncations, name, "
            "type, annotation and evaluation errors of generated programs, in varied layouts; distinct by "
            "source text; oracle: the printed text parsed back: file, line and column against the error's "
            "position and the source, quoted line verbatim, caret column; position against the "
            "reference lexer, parser and semantics")

    def cases(self, tier):
        return 120000 if tier == "quick" else 1500000

    def make(self, ctx, i):
        rng = ctx.rng
        k = i % 10
        if k == 0:
            return soup.soup(rng)
        if k == 1:
            return soup.mutate(rng, rng.choice(soup.corpus()))
        if k == 2:
            return c03.make(ctx, 10 ** 6 + i * 7 % 5000)[1]
        src = program(rng)
        if k in (3, 4):
            src = M.mutate_types(rng, src)
        elif k == 5:
            src = M.mutate_names(rng, src)
        elif k == 6:
            src = M.inject_failure(rng, src)
        elif k == 7:
            try:
                ps = c15.points(src)
            except ref_parse.ParseError:
                ps = []
            if ps:
                at, construct, before = rng.choice(ps)
                src = src[:at] + " " + c15.annotation(rng, construct) + " " + src[at:]
        elif k == 8:
            src += f"const zz = {operand(rng, rng.choice(['Int', 8, 'Bool', 128]))} " \
                   f"{rng.choice(M.BINARY)} {operand(rng, rng.choice(['Int', 8, 'Bool', 128, 1]))};\n"
        else:
            return soup.mutate(rng, squeeze(rng, src), 1)
        return squeeze(rng, src)

    def bmd_case(self, ctx, i):
        rng = ctx.rng
        src = gen_bmd.mutate(rng, gen_bmd.make(rng, 3 if i % 24 else i // 24))
        if rng.random() < .3:
            src = src.rstrip("\n")
        r = ctx.ask("bmd", src, "hd")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        r = r["result"]
        ctx.stats["evaluations"] += 1
        if "rendered" not in r:
            ctx.stats["without_error"] += 1
            return
        ctx.stats.saw(src)
        ctx.stats.hit(f"bmd {r['stage']}:{r['code']}")
        # an unexpected line feed is shown as such in the message
        r["rendered"] = r["rendered"].replace("unexpected character '\n' while", "unexpected character '?' while")
        self.check_text(ctx, src, r, "doc.bmd")
        try:
            want = None
            ref_bmd.html(src, ref_bmd.parse(src), lambda c: ref_lex.lex(c)[1] is None)
        except ref_bmd.BmdError as e:
            want = e.pos
        except ref_bmd.DocError as e:
            want = e.at
        if want is not None:
            ctx.stats["positions_compared"] += 1
            if r["pos"][0] != want:
                ctx.fail(f"error reported at {r['pos']}, it is caused at offset {want}", source=src, rendered=r["rendered"])

    def case(self, ctx, i):
        if i % 12 == 11:
            self.bmd_case(ctx, i)
            return
        src = self.make(ctx, i)
        want = None
        if i % 10 >= 3:
            try:
                want, _ = S.reference(src)
            except AssertionError:
                want = None
            if want is None:
                ctx.stats["no_opinion"] += 1
                return
        r = ctx.ask("bms", src, "d", 3)
        p = problem_of(r)
        if p is not None:
            if p["kind"] == "hang" and "while" in src:
                ctx.stats["not_terminating"] += 1
                return
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        r = r["result"]
        ctx.stats["evaluations"] += 1
        if "rendered" not in r:
            ctx.stats["without_error"] += 1
            return
        ctx.stats.saw(src)
        ctx.stats.hit(f"{r['stage']}:{r['code']}")
        self.check_text(ctx, src, r)
        if want is not None and want.pos is not None and want.code == r["code"] and r["pos"]:
            ctx.stats["positions_compared"] += 1
            if list(r["pos"][:3]) != want.pos:
                ctx.fail(f"{want} is reported at {r['pos']}, it is caused at {want.pos}", source=src)
        if ctx.stats["evaluations"] % 1997 == 1:
            ctx.stats.sample({"source": src[:200], "rendered": r["rendered"][:400]})

    def check_text(self, ctx, src, r, file=FILE):
        def bad(what):
            ctx.fail(what, source=src, rendered=r["rendered"], pos=r.get("pos"))
        text = ANSI.sub("", r["rendered"])
        src_lines = ANSI.sub("", src)
        if src_lines != src:
            return
        pos = r.get("pos")
        out = text
        first = True
        places = []
        if not out.endswith("\n"):
            bad("diagnostic does not end its last line")
        while out:
            if out.startswith("This is an internal error") and not first:
                break
            m = re.match(r"(?:([^\n]*?):(\d+):(\d+)|(\(internal\))): (error|note): ", out)
            if not m:
                bad(f"diagnostic has an unexpected line: {out[:80]!r}")
            eol = out.index("\n")
            # expected quote of the place named in the line
            message = out[m.end():eol]
            out = out[eol + 1:]
            if not message.strip():
                bad("empty message")
            if first != (m.group(5) == "error"):
                bad("an error is not followed by notes only")
            first = False
            if m.group(4):
                continue
            if m.group(1) != file:
                bad(f"diagnostic names the file {m.group(1)!r}")
            line, col = int(m.group(2)) - 1, int(m.group(3)) - 1
            places.append((line, col))
            ls = lines_of(src)
            if line >= len(ls) or col not in columns(ls[line]):
                bad(f"diagnostic names line {line + 1}, column {col + 1}, which the source does not have")
            quote = f"{line + 1:>5} | {ls[line]}\n"
            caret = "      | "[1:6] + " | " + " " * col + "^\n"
            if out.startswith(quote):
                ctx.stats["quotes_checked"] += 1
                out = out[len(quote):]
                if not out.startswith(caret):
                    bad(f"caret is not under line {line + 1}, column {col + 1}: {out[:60]!r}")
                out = out[len(caret):]
            elif re.match(r" *\d+ \| ", out):
                bad(f"quoted text is not line {line + 1} of the source")
        if pos:
            want = (pos[1], pos[2])
            if not places or places[0] != want:
                bad(f"diagnostic says {places[:1]}, the error's position is {want}")
            begin = pos[0]
            if begin > len(src) or ref_lex.advance(src[:begin], 0, 0) != (pos[1], pos[2]):
                bad(f"offset {begin} is not line {pos[1] + 1}, column {pos[2] + 1}")
        if "|" not in text:
            bad("nothing of the source is quoted")

    def finish(self, stats):
        if stats["quotes_checked"] < 200 or stats["positions_compared"] < 100:
            return ["too few diagnostics"]
        return []


CHECK = C14()
