"""C25: the output builders keep text, markup and marks consistent for every sequence of calls."""
import re

from .. import html
from ..core import Check, problem_of

STYLES = ["pre", "in_line", "flat", "block"]
BLOCK = ("flat", "block")
TYPES = ["whitespace", "preamble", "comment", "tag_identifier", "tag_bracket", "attribute_key",
         "attribute_equal", "attribute_comma", "attribute_quote", "attribute_value", "inner_text"]
TAGS = ["b", "div", "p", "ul", "li", "h1", "c-idn", "x_y", "T9", "html"]
TEXT = list("abc xyz09<>&\"'=/`;-!\\") + ["\n", "\t", "&lt;", "</b>", "<!--", "-->", "  ", "\xe4\xb8", "\r", "]]>"]
NAME = re.compile(r"[A-Za-z_-][A-Za-z0-9_-]*\Z")


def enc(s):
    return "".join(c if c.isalnum() or c in "_-. " else f"%{ord(c):02x}" for c in str(s))


def script_of(ops):
    return "".join("\t".join(enc(x) for x in op) + "\n" for op in ops)


def text(rng, n=8):
    return "".join(rng.choice(TEXT) for _ in range(rng.randrange(n)))


def bad_name(rng):
    return rng.choice(["", "1a", "a b", "a<", 'x"', "a=b", "a>", "\xe4", "a/", "0"])


class Html:
    """Generates legal calls and says what the document they write holds."""

    def __init__(self, rng):
        self.rng = rng
        self.width = rng.choice([0, 1, 2, 2, 4, 7])
        self.ops, self.open, self.events = [], [], []
        self.texts = []              # (index, expected line count)
        self.styles = rng.choice([STYLES, STYLES, ["pre", "in_line"], ["block", "flat"], ["in_line"]])
        self.gaps = rng.random() < .3
        self.depths = []             # per op: the number of open block elements when it writes

    def add(self, *op):
        self.ops.append(op)

    def depth(self):
        return sum(s == "block" for _, s in self.open)

    def step(self):
        r = self.rng
        k = r.random()
        style = r.choice(self.styles)
        self.depths.append((len(self.ops), self.depth()))
        if k < .18:
            tag = r.choice(TAGS)
            self.add("B", tag, style)
            self.open.append((tag, style))
            self.events.append(("open", tag, {}))
        elif k < .36:
            tag = r.choice(TAGS)
            attrs = {r.choice("abcdefgh") + r.choice(["", "-x", "_2"]): r.choice(
                ["", "", "v", "1.5", 'a "b" & c', "x y", "'", "<b>", "a=b", "&amp;", "\t", "\xe4"]) or text(r)
                for _ in range(r.randrange(4))}
            attrs = {k: v if r.random() < .9 else "" for k, v in attrs.items()}
            end = r.choice(["end", "end", "empty"])
            flat = [x for kv in attrs.items() for x in kv]
            self.add("A", tag, style, end, *flat)
            self.events.append(("open" if end == "end" else "empty", tag, attrs))
            if end == "end":
                self.open.append((tag, style))
        elif k < .44:
            tag = r.choice(TAGS)
            self.add("E", tag, style)
            self.events.append(("empty", tag, {}))
        elif k < .5:
            c = "".join(r.choice("abc <>&\"'\n=") for _ in range(r.randrange(6)))
            c = "c" + c
            self.add("C", c, style)
            self.events.append(("comment", c))
        elif k < .72:
            t = text(r, r.choice([2, 6, 20]))
            self.texts.append((len(self.ops), 1 if style == "pre" else t.count("\n") + (not t.endswith("\n") and t != "")))
            self.add("T", t, style)
            self.events.append(("text", t))
        elif k < .78 and self.gaps:
            c, n = r.choice(" \t\n\r"), r.randrange(4)
            self.add("W", c, n)
            self.events.append(("text", c * n))
        elif k < .84 and self.gaps:
            line, col, begin = r.randrange(5), r.randrange(9), r.randrange(50)
            n = r.randrange(1, 5) if r.random() < .8 else r.randrange(1, 300)
            if r.random() < .5:
                gap = r.randrange(4)
                second = (line, col + n + gap, begin + n + gap, 2)
                t = " " * gap
            else:
                dl, c2 = r.randrange(1, 4), r.randrange(6)
                second = (line + dl, c2, begin + n + dl + c2 + r.randrange(3), 2)
                t = "\n" * dl + " " * c2
            if style != "pre":
                t = " " if second[2] != begin + n else ""
            self.add("G", line, col, begin, n, *second, style)
            self.events.append(("text", t))
        elif self.open:
            self.close()

    def close(self):
        tag, style = self.open.pop()
        if self.depths and self.depths[-1][0] == len(self.ops):
            self.depths.pop()
        self.depths.append((len(self.ops), self.depth()))
        self.add("Z", tag, style)
        self.events.append(("close", tag))

    def misuse(self):
        """A call that has to be refused; None if none fits."""
        r = self.rng
        k = r.randrange(9)
        style = r.choice(STYLES)
        if k == 0:
            return ("P",)
        if k == 1:
            return ("B", bad_name(r), style)
        if k == 2:
            return ("E", bad_name(r), style)
        if k == 3:
            return ("A", r.choice(TAGS), style, "end", "ok", "1", bad_name(r), "v")
        if k == 4:
            return ("A", r.choice(TAGS), style, "none", "ok", "1")
        if k == 5:
            return None if self.open else ("Z", r.choice(TAGS), style)
        if k == 6:
            return ("C", "x-->y", style)
        if k == 7:
            return ("W", r.choice("a-<0"), 2)
        return ("G", 1, 5, 20, 4, 1, 8, 23, 1, style)


def squash(events, exact):
    out = []
    for e in events:
        if e[0] == "text":
            t = e[1] if exact else re.sub(r"\s+", "", e[1])
            if not t:
                continue
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + t)
                continue
            e = ("text", t)
        out.append(tuple(e))
    return out


class C25(Check):
    id = "C25"
    targets = ("out",)
    rule = ("random scripts of calls to HTML_Writer (all styles, indentations, attributes, texts, comments, gaps; "
            "legal, or with one misuse at the end) and to Code_String (appends, marks, truncations, copies); "
            "distinct by script; oracle: strict reader of the document against a model of the calls, layout of "
            "block elements, token kinds, line counts, completion; list model and iterator laws for code strings")

    def cases(self, tier):
        return 320000 if tier == "quick" else 6000000

    def ask(self, ctx, script):
        r = ctx.ask("out", script, name="out")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", script=script)
        if r.get("unfreed"):
            ctx.fail("memory is not returned", script=script)
        ctx.stats["evaluations"] += 1
        ctx.stats.saw(script)
        return r["result"]

    def case(self, ctx, i):
        if i % 3 == 2:
            self.code(ctx)
        else:
            self.html(ctx, i)

    # ------------------------------------------------------------------ HTML_Writer
    def html(self, ctx, i):
        rng = ctx.rng
        g = Html(rng)
        bad = None
        if rng.random() < .04:
            while bad is None or bad[0] in "PC":
                bad = rng.choice([("E", "b", "flat"), ("B", "b", "pre"), ("T", "x", "in_line"), ("Z", "b", "block"),
                                  ("W", " ", 1), ("A", "b", "flat", "end"), ("G", 0, 0, 0, 1, 0, 1, 1, 1, "pre")])
        else:
            g.add("P")
            for _ in range(rng.choice([1, 4, 12, 40])):
                g.step()
            if rng.random() < .8:
                while g.open:
                    g.close()
            if rng.random() < .25:
                bad = g.misuse()
        ops = g.ops + ([bad] if bad else [])
        script = script_of([("html", g.width)] + ops)
        r = self.ask(ctx, script)

        def fail(what, **kw):
            ctx.fail(what, script=script, document=document, **kw)
        document = "".join(t for _, t in r["tokens"])
        want = len(ops) if bad else -1
        if r["refused"] != want:
            fail(f"call {r['refused']} is refused instead of call {want} {bad or ''}")
        if bad:
            ctx.stats.hit("refused:" + bad[0])
            return
        self.done(g, r, fail)
        for k, n in g.texts:
            if r["results"][k] // 2 != n:
                fail(f"text {g.ops[k][1]!r} is said to be split onto {r['results'][k] // 2} lines, not {n}")
        head = "<!DOCTYPE html>\n"
        if not document.startswith(head):
            fail("the document does not begin with its preamble")
        exact = not any(op[0] in "ABEZCT" and op[2] in BLOCK for op in g.ops if len(op) > 2)
        closing = "".join(f"</{t}>" for t, _ in reversed(g.open))
        try:
            got = html.events(document[len(head):] + closing, comments=True)
        except html.NotWellFormed as e:
            fail(f"not well formed: {e}")
        expected = g.events + [("close", t) for t, _ in reversed(g.open)]
        if squash(got, exact) != squash(expected, exact):
            a, b = squash(got, exact), squash(expected, exact)
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            fail(f"the document holds {a[k:k + 2]} where {b[k:k + 2]} was written")
        self.kinds(r["tokens"], fail)
        self.layout(g, r["tokens"], fail)
        self.verbatim(g, r["tokens"], r["ends"], fail)
        ctx.stats.hit("exact" if exact else "laid out")
        for op in g.ops:
            ctx.stats.hit(op[0] + (":" + op[2] if len(op) > 2 and op[0] in "ABEZCT" else ""))
        if i % 4000 == 0:
            ctx.stats.sample({"calls": [list(o) for o in ops[:12]], "document": document[:300]})

    def done(self, g, r, fail):
        depth, block_last = 0, False
        for k, op in enumerate(g.ops):
            depth += (op[0] == "B" or op[0] == "A" and op[3] == "end") - (op[0] == "Z")
            done = r["results"][k] % 2
            if done and depth:
                fail(f"the document is said to be complete with {depth} elements open")
            if not done and not depth and op[0] == "Z" and op[2] in BLOCK and not any(
                    o[0] in "WG" for o in g.ops):
                fail("the document is complete, but said not to be")

    def kinds(self, tokens, fail):
        brackets = {"<", ">", "</", "/>", "<!", "<!--", "-->"}
        previous = ""
        for t, s in tokens:
            kind = TYPES[t]
            named = previous in ("<", "</")
            ok = {"whitespace": not s.strip(" \t\r\n"), "preamble": s == "DOCTYPE html", "comment": previous == "<!--",
                  "tag_identifier": bool(NAME.match(s)) and named, "tag_bracket": s in brackets,
                  "attribute_key": bool(NAME.match(s)), "attribute_equal": s == "=",
                  "attribute_quote": s in "\"'", "attribute_value": '"' not in s,
                  "inner_text": "<" not in s and ">" not in s}.get(kind, False)
            if not ok:
                fail(f"{s!r} is written as {kind}")
            if named and kind != "tag_identifier":
                fail(f"the name of a tag, {s!r}, is written as {kind}")
            if s:
                previous = s if kind == "tag_bracket" else ""

    def layout(self, g, tokens, fail):
        """Block elements are on lines of their own, indented once per open block element."""
        if any(op[0] in "WG" for op in g.ops):
            return
        line, k = "", 0
        after = None
        marks = [(op, d) for op, d in zip(g.ops[1:], self.depths(g)) if op[0] in "ABEZC"]
        waiting = None
        for t, s in tokens[3:]:
            kind = TYPES[t]
            if after and s:
                if not s.startswith("\n"):
                    fail(f"{s!r} follows the tag of {after} in its line")
                after = None
            if kind == "tag_bracket" and s in ("<", "</", "<!--"):
                (op, d), k = marks[k], k + 1
                if op[2] in BLOCK and line != " " * (g.width * d):
                    fail(f"{op[:3]} is written behind {line!r}, {d} levels deep")
                waiting = op
            line = (line + s).rsplit("\n", 1)[-1]
            if kind == "tag_bracket" and s in (">", "/>", "-->") and waiting:
                after = waiting[:3] if waiting[2] in BLOCK else None
                waiting = None
        if k != len(marks):
            fail("not every call wrote its tag")

    def verbatim(self, g, tokens, ends, fail):
        """Preformatted pieces are written as they are; inline ones only get the indentation of a new line."""
        so_far = "\n"
        for op, d, a, b in zip(g.ops[1:], self.depths(g), ends, ends[1:]):
            pieces = [s for _, s in tokens[a:b]]
            fresh = so_far.endswith("\n")
            if op[0] != "G" or not fresh:  # a gap at the start of a line leaves the line new
                so_far = ("".join(pieces) or so_far)[-1:]
            if op[0] not in "ABEZCT" or op[2] in BLOCK or not pieces:
                continue
            lead, k = "", 0
            while k < len(pieces) and TYPES[tokens[a + k][0]] == "whitespace" and pieces[k] != "\n":
                lead, k = lead + pieces[k], k + 1
            ind = " " * (g.width * d)
            if lead and (op[2] == "pre" or not fresh or lead != ind):
                fail(f"{op[:3]} is written behind {lead!r} that nobody wrote")
            text = "".join(pieces)
            if op[0] != "T":
                if k < len(pieces) and TYPES[tokens[b - 1][0]] == "whitespace" and pieces[-1]:
                    fail(f"{op[:3]} is followed by {pieces[-1]!r} that nobody wrote")
                continue
            text = text.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
            if op[2] == "pre" and text != op[1]:
                fail(f"preformatted text {op[1]!r} is written as {text!r}")
            got, want = text.split("\n"), op[1].split("\n")
            if op[2] == "in_line" and (len(got) != len(want) or any(
                    x != y and x != ind + y for x, y in zip(got, want))):
                fail(f"inline text {op[1]!r} is written as {text!r}")

    def depths(self, g):
        d, out = 0, []
        for op in g.ops[1:]:
            block = len(op) > 2 and op[2] == "block"
            d -= op[0] == "Z" and block
            out.append(d)
            d += block and (op[0] == "B" or op[0] == "A" and op[3] == "end")
        return out

    # ------------------------------------------------------------------ Code_String
    def code(self, ctx):
        rng = ctx.rng
        ops, s, spans, marks, bad = [("code",)], "", [], [], False
        long = rng.random() < .02
        for _ in range(rng.choice([300, 700, 1500] if long else [0, 1, 5, 20, 60])):
            k = rng.randrange(12)
            if long and k > 8 and rng.random() < .95:
                k = 5
            t = text(rng) or "x"
            if k < 3:
                t = t if rng.random() < .8 else ""
                ops.append(("a", t))
                s += t
            elif k == 3:
                ops.append(("c", t[0]))
                s += t[0]
            elif k == 4:
                n = rng.randrange(6)
                ops.append(("n", n, t[0]))
                s += t[0] * n
            elif k < 8:
                kind = rng.randrange(11)
                ops.append(("s", t, kind))
                spans.append([len(s), len(t), kind])
                s += t
            elif k == 8:
                kind = rng.randrange(11)
                ops.append(("q", t[0], kind))
                spans.append([len(s), 1, kind])
                s += t[0]
            elif k == 9:
                ops.append(("L",))
                marks.append((len(s), len(spans)))
            elif k == 10 and marks:
                m = rng.randrange(len(marks))
                if marks[m][0] <= len(s) and marks[m][1] <= len(spans):
                    ops.append(("R", m))
                    s, spans = s[:marks[m][0]], spans[:marks[m][1]]
            else:
                ops.append(("Y",))
        if rng.random() < .05:
            ops.append(("s", "", 3))
            bad = True
        script = script_of(ops)
        r = self.ask(ctx, script)
        if r["wrong"]:
            ctx.fail(f"code string: {r['wrong']}", script=script)
        if r["refused"] != (len(ops) - 1 if bad else -1):
            ctx.fail(f"call {r['refused']} is refused", script=script)
        if r["text"] != s or r["spans"] != spans:
            ctx.fail(f"code string holds {r['text']!r} {r['spans']} instead of {s!r} {spans}", script=script)
        ctx.stats.hit("code strings")
        ctx.stats["spans_seen"] += len(spans)
        if len(spans) > 300:
            ctx.stats.hit("more than 300 spans")

    def finish(self, stats):
        need = [f"{o}:{s}" for o in "ABEZCT" for s in STYLES] + ["exact", "laid out", "W", "G", "code strings", "more than 300 spans"]
        need += ["refused:" + k for k in "PBEAZCWGT"]
        return [f"never observed: {k}" for k in need if not stats.cover[k]]


CHECK = C25()
