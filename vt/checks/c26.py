"""C26: the options of code generation do what they document, and nothing else."""
import re

from .. import gen_prog, mutate_prog as M
from ..core import Check, problem_of
from . import c20

TOKEN = re.compile(r"0[xX][0-9a-fA-F]+|\d\w*|[A-Za-z_]\w*|->|<<|>>|&&|\|\||[=!<>]=|::|\S")
WORD = re.compile(r"[A-Za-z_]\w*\Z")
KINDS = ["identifier", "type_name", "bracket", "number", "string", "comment", "operation", "punctuation",
         "keyword", "boolean_literal", "error"]
BINARY = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=", "?",
          ":"}
C_KEYWORDS = {"void", "int", "bool", "_Bool", "_BitInt", "unsigned", "constexpr", "if", "else", "while", "return",
              "break", "continue", "const", "static_assert"}
BMS_KEYWORDS = {"let", "const", "if", "else", "while", "return", "break", "continue", "function", "as", "requires",
                "static_assert", "true", "false"}
BMS_TYPES = {"Int", "Bool", "Uint", "Void", "Nothing"}
ALLMAN, K_AND_R, STROUSTRUP = 1, 2, 3
# what is documented as the default of the two options about breaking lines: after functions, after conditions
STYLES = {ALLMAN: (1, 1), K_AND_R: (0, 0), STROUSTRUP: (1, 0)}
C23, PARENS, SET_BITINT, BITINT = 1, 2, 4, 8


def spec(lang, bits, style=0, size=4, char=" ", fn=0, cond=0):
    return (lang, bits, style, size, char, fn, cond)


def layout_of(s):
    """The indentation unit, and whether lines are broken after functions and after conditions."""
    if 0 < s[2] < 4:
        return " " * 4, *STYLES[s[2]]
    return s[4] * s[3], s[5], s[6]


def tokens(text):
    return TOKEN.findall(text)


def without_parens(toks):
    return [t for t in toks if t not in "()"]


def nest(rng, depth):
    """Statements nested as deep as desired, with no more than a few of them per level."""
    if depth == 0 or rng.random() < .06:
        return rng.choice(["x = x + 1;", "x = x;", "return x;", "const k = 3;", "let y = b && !b;", "f(x, b);"])
    cond = rng.choice(["b", "!b", "x == 1", "(x < 2) && b", "(x >> 1) != 0", "true"])
    inner = nest(rng, depth - 1)
    other = nest(rng, rng.randint(0, min(depth - 1, 2)))
    s = rng.choice([
        "if {c} {{ {i} }}", "if {c} {{ {i} }} else {{ {o} }}", "if {c} {{ {o} }} else {{ {i} }}",
        "if {c} {{ {o} }} else if !b {{ {i} }}", "if {c} {{ {o} }} else if !b {{ {o} }} else {{ {i} }}",
        "if {c} {{ }} else if b {{ {i} }} else {{ }}", "while {c} {{ {i} break; }}", "while {c} {{ {o} }} {{ {i} }}",
        "while {c} {{ if b {{ continue; }} {i} }}", "{{ {i} }}"])
    return s.format(c=cond, i=inner, o=other)


class C26(Check):
    id = "C26"
    rule = ("generated accepted programs; distinct by source text and options; each is generated in BMS, C and C++ "
            "with random sets of options from one analyzed program; oracle: token sequences of the outputs related "
            "as the options document, a line by line reading of the layout, and the class of every marked span")
    quick, thorough = 45000, 1500000

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def layouts(self, rng, lang, bits, n):
        out = []
        for _ in range(n):
            if rng.random() < .3:
                out.append(spec(lang, bits, rng.randint(1, 3)))
            else:
                out.append(spec(lang, bits, rng.choice([0, 5, 6, 7]), rng.choice([0, 1, 2, 3, 4, 4, 7, 8, 40]),
                                rng.choice("   \t\t"), rng.randint(0, 1), rng.randint(0, 1)))
        return out

    def program(self, rng):
        r = rng.random()
        if r < .15:
            return "function f(p: Uint(8), b: Bool) -> Uint(8) { let x: Uint(8) = p; " + \
                nest(rng, rng.randint(3, 14)) + " return x; }"
        if r < .35:
            return gen_prog.Gen(rng, functions=2, consts=3, depth=3).program()
        if r < .5:
            src = gen_prog.Gen(rng, functions=1, consts=4, depth=6, big=.1, missing_return=0, loops=False).program()
            return M.insert_typed(rng, src) if rng.random() < .3 else src
        return c20.CHECK.program(rng, rng.choice(list(c20.TARGETS)))

    def case(self, ctx, i):
        rng = ctx.rng
        src = self.program(rng)
        specs = []
        for lang in "bcp":
            bits = rng.choice([0, 0, C23, C23, C23 | SET_BITINT, C23 | SET_BITINT | BITINT])
            for b in (bits, bits | PARENS):
                specs += self.layouts(rng, lang, b, 2)
            # the same program in the other dialects
            specs += self.layouts(rng, lang, rng.choice([SET_BITINT, SET_BITINT | BITINT, 0]), 1)
            specs += self.layouts(rng, lang, C23 | rng.choice([0, SET_BITINT, SET_BITINT | BITINT]), 1)
        rng.shuffle(specs)
        flags = "".join(f"{s[0]},{s[1]},{s[2]},{s[3]},{ord(s[4])},{s[5]},{s[6]};" for s in specs)
        r = ctx.ask("bms", src, "v:G" + flags, 10)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        r = r["result"]
        if r["stage"] != "ok":
            ctx.stats["rejected"] += 1
            return
        ctx.stats["evaluations"] += 1
        ctx.stats.saw(f"{sorted(specs)} {src}")
        gens = r["gens"]
        first = {}
        for s, g in zip(specs, gens):
            name = {"b": "BMS", "c": "C", "p": "C++"}[s[0]]
            self.name, self.ctx_info = name, dict(source=src, output=g["text"], options=s)
            # in C, the dialects can represent different programs; without C23, constants are inlined
            group = (s[0],) + ((bool(s[1] & C23), self.bitint(s) and s[0] == "c") if s[0] != "b" else ())
            ref = first.setdefault(group, (s, g))
            if (g["ok"], g.get("code")) != (ref[1]["ok"], ref[1].get("code")):
                self.bad(ctx, f"whether {name} can be generated depends on {ref[0]}", other=ref[1]["text"])
            if not g["ok"]:
                if g["text"] or g["kinds"]:
                    self.bad(ctx, "a failed generation leaves code behind")
                ctx.stats.hit(f"{name}:refused")
                continue
            toks = tokens(g["text"])
            a, b = toks, tokens(ref[1]["text"])
            if (s[1] ^ ref[0][1]) & PARENS:
                a, b = without_parens(a), without_parens(b)
            if a != b:
                k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                self.bad(ctx, f"options change the {name} code: {a[max(k - 3, 0):k + 4]} instead of "
                         f"{b[max(k - 3, 0):k + 4]}",
                         other=ref[1]["text"], other_options=ref[0])
            if s[1] & PARENS:
                self.parenthesized(ctx, s[0], toks)
            self.dialect(ctx, s, toks)
            self.layout(ctx, s, g["text"])
            self.kinds(ctx, s, g)
            ctx.stats.hit(f"{name}:bits {s[1]}")
            ctx.stats.hit(f"{name}:style {s[2]}")
            ctx.stats.hit("break {} {}".format(*layout_of(s)[1:]))
        self.dialects(ctx, src, first)
        if i % 1999 == 1:
            ctx.stats.sample({"source": src[:300], "output": gens[0]["text"][:400], "options": str(specs[0])})

    def bad(self, ctx, what, **kw):
        ctx.fail(what, **self.ctx_info, **kw)

    @staticmethod
    def bitint(s):
        """Whether _BitInt is preferred."""
        return bool(s[1] & C23) and (bool(s[1] & BITINT) if s[1] & SET_BITINT else True)

    # ------------------------------------------------------------------
    def parenthesized(self, ctx, lang, toks):
        """Every operand of every operator stands in parentheses."""
        for k, t in enumerate(toks):
            prev, after = toks[k - 1] if k else "", toks[k + 1] if k + 1 < len(toks) else ""
            if lang == "b":
                if t == ":" or t == "=":
                    continue
                if t in BINARY and self.is_prefix(toks, k) or t in "!~" and t:
                    if after != "(":
                        self.bad(ctx, f"operand {after} of {t} is not parenthesized")
                elif t in BINARY or t == "as":
                    if prev != ")" or t != "as" and after != "(":
                        self.bad(ctx, f"operand of {t} is not parenthesized: {toks[k - 2:k + 3]}")
                    ctx.stats.hit(f"parenthesized {lang}:{t}")
                elif t == "if" and k and prev not in (";", "{", "}", "else"):
                    if prev != ")" or after != "(":
                        self.bad(ctx, f"operand of if is not parenthesized: {toks[k - 2:k + 3]}")
                    ctx.stats.hit(f"parenthesized {lang}:if")
                continue
            if t in "!~" or t in BINARY and self.is_prefix(toks, k):
                # negative numbers are no operations
                if after != "(" and not (t == "-" and after.isalnum() and prev == "("):
                    self.bad(ctx, f"operand {after} of {t} is not parenthesized")
                ctx.stats.hit(f"parenthesized {lang}:prefix {t}")
            elif t in BINARY:
                if prev != ")" or after != "(":
                    self.bad(ctx, f"operand of {t} is not parenthesized: {toks[k - 2:k + 3]}")
                ctx.stats.hit(f"parenthesized {lang}:{t}")

    @staticmethod
    def is_prefix(toks, k):
        prev = toks[k - 1] if k else ""
        if prev == ")":
            # a cast is a parenthesized type
            return toks[k - 2] in ("uint8_t", "uint16_t", "uint32_t", "uint64_t", "int", "bool", "_Bool") or \
                toks[k - 2] == ")" and toks[k - 5] == "_BitInt"
        return not (WORD.match(prev) and prev not in ("return", "else") or prev.isalnum() and prev not in ("return",))

    # ------------------------------------------------------------------
    def dialect(self, ctx, s, toks):
        if s[0] == "b":
            return
        seen = set(toks)
        c23 = s[0] == "c" and s[1] & C23
        if s[0] == "c":
            if "_Bool" in seen and c23:
                self.bad(ctx, "_Bool is not spelled bool in C23")
            if "bool" in seen and not c23:
                self.bad(ctx, "bool is not spelled _Bool before C23")
        if "_BitInt" in seen and not c23:
            self.bad(ctx, "_BitInt is used outside of C23")
        if c23 and self.bitint(s):
            old = seen & {"uint8_t", "uint16_t", "uint32_t", "uint64_t"}
            if old:
                self.bad(ctx, f"{old} is used although _BitInt is preferred")
            ctx.stats.hit("bitint:" + str("_BitInt" in seen))
        elif c23:
            for k, t in enumerate(toks):
                if t == "_BitInt" and toks[k + 2] in ("8", "16", "32", "64"):
                    self.bad(ctx, f"_BitInt({toks[k + 2]}) is used although it is not preferred")
        for k, t in enumerate(toks):
            if re.fullmatch(r"uint\d+_t", t) and (s[0] == "p") != (toks[k - 2:k] == ["std", "::"]):
                self.bad(ctx, f"{t} is spelled wrongly in {self.name}")

    def dialects(self, ctx, src, first):
        """C without _BitInt and C++ are spelled differently at most."""
        def plain(key):
            s, g = first.get(key, (None, None))
            if g is None or not g["ok"]:
                return None
            toks = [t for t in without_parens(tokens(g["text"])) if t not in ("std", "::")]
            return ["bool" if t == "_Bool" else t for t in toks]
        old, new = plain(("c", False, False)), plain(("c", True, False))
        cpp, cppnew = plain(("p", False, False)), plain(("p", True, False))
        pairs = [(old, cpp, "C99 and C++"), (new, cppnew, "C23 and C++")]
        if new is not None and "constexpr" not in new:
            pairs.append((old, new, "C99 and C23"))
        for a, b, what in pairs:
            if a is not None and b is not None:
                if a != b:
                    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    ctx.fail(f"{what} differ: {a[max(k - 3, 0):k + 4]} and {b[max(k - 3, 0):k + 4]}", source=src,
                             one=" ".join(a), other=" ".join(b))
                ctx.stats.hit("compared " + what)
        # what can be said in C99 can be said in the others
        if old is not None:
            for key in (("c", True, False), ("p", False, False)):
                if key in first and not first[key][1]["ok"]:
                    ctx.fail(f"{key} cannot be generated although C99 can", source=src)

    # ------------------------------------------------------------------
    def layout(self, ctx, s, text):
        unit, fn, cond = layout_of(s)
        lines = text.split("\n")
        depth, opened = 0, []
        if lines[-1] != "":
            self.bad(ctx, "the last line is not terminated")
        for k, line in enumerate(lines):
            body = line.lstrip(unit[0]) if unit else line
            if not body:
                if line:
                    self.bad(ctx, f"line {k + 1} is nothing but white space")
                if depth:
                    self.bad(ctx, f"line {k + 1} is empty within a function")
                continue
            if body.startswith("}"):
                depth -= 1
                if depth < 0:
                    self.bad(ctx, "too many braces are closed")
                # the function's own brace ends its line, as do others unless followed by else
                if body != "}" and (cond or opened[-1] == "function" or not body.startswith("} else ")):
                    self.bad(ctx, f"something follows the brace in {body!r}")
                if not cond and opened[-1] == "condition" and body == "}" and \
                        lines[k + 1].lstrip(" \t").startswith("else"):
                    self.bad(ctx, f"line {k + 2} starts with else")
                opened.pop()
            if line != unit * depth + body:
                self.bad(ctx, f"line {k + 1} {line!r} is not indented {depth} deep")
            if body != body.rstrip():
                self.bad(ctx, f"white space follows {body!r}")
            if "  " in body or "\t" in body:
                self.bad(ctx, f"unneeded white space within {body!r}")
            if body.endswith("{"):
                kind = "function" if depth == 0 else "condition"
                if body == "{":
                    if not (fn if kind == "function" else cond):
                        before = lines[k - 1].lstrip(" \t")
                        # a block on its own
                        if kind == "function" or not before.endswith("{") and \
                                before.startswith(("if ", "while ", "else", "} else")):
                            self.bad(ctx, f"the brace of line {k + 1} is on a line of its own")
                elif fn if kind == "function" else cond:
                    self.bad(ctx, f"the brace of {body!r} is not on a line of its own")
                opened.append(kind)
                depth += 1
                ctx.stats.hit(f"depth {min(depth, 12)}")
                ctx.stats.hit(f"brace of {kind}")
            elif "{" in body:
                self.bad(ctx, f"code follows the brace in {body!r}")
        if depth:
            self.bad(ctx, "not all braces are closed")

    # ------------------------------------------------------------------
    def kinds(self, ctx, s, g):
        text = g["text"]
        for b, n, k in g["kinds"]:
            t, kind = text[b:b + n], KINDS[k]
            if t in ("true", "false"):
                need = ("boolean_literal",)
            elif t[0].isdigit():
                need = ("number",)
            elif t in ("(", ")", "{", "}", "[", "]"):
                need = ("bracket",)
            elif t in (";", ","):
                need = ("punctuation",)
            elif s[0] == "b" and t in (":", "->"):
                need = ("punctuation", "operation")
            elif WORD.match(t):
                if s[0] == "b":
                    need = ("keyword",) if t in BMS_KEYWORDS else ("keyword", "type_name") if t in BMS_TYPES \
                        else ("identifier",)
                else:
                    need = ("keyword",) if t in C_KEYWORDS else ("type_name",) if \
                        re.fullmatch(r"uint\d+_t|std", t) else ("identifier",)
            else:
                need = ("operation",)
            if kind not in need:
                self.bad(ctx, f"{t!r} is marked as {kind}")
            ctx.stats.hit(f"marked {self.name}:{kind}")

    def finish(self, stats):
        need = ["bitint:True", "compared C99 and C23", "compared C99 and C++", "compared C23 and C++", "brace of function",
                "brace of condition", "break 0 0", "break 0 1", "break 1 0", "break 1 1"]
        need += [f"{n}:style {k}" for n in ("BMS", "C", "C++") for k in (0, 1, 2, 3, 5, 6, 7)]
        need += [f"C:bits {k}" for k in (0, 1, 2, 3, 5, 7, 13, 15, 4, 12)]
        need += [f"parenthesized {x}:{op}" for x in "bcp" for op in BINARY - {"?", ":"}]
        need += [f"parenthesized {x}:{op}" for x in "cp" for op in ("?", ":")] + ["parenthesized b:if"]
        need += [f"depth {k}" for k in range(1, 13)]
        return [f"never observed: {k}" for k in need if not stats.cover[k]]


CHECK = C26()
