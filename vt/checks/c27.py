"""C27: what rendered diagnostics say, besides where."""
import re

from ..core import Check, problem_of
from .. import gen_bmd, gen_prog, mutate_prog as M, ref_lex, ref_parse, sema_case as S, soup
from ..gen_prog import WIDTHS
from . import c03, c14, c15
from .sema import SMALL_OPTS, operand

# What the message of an error has to mention (in this order, in any case).
MESSAGES = {
    "failed_to_define_global_const": "name.*already.*const",
    "failed_to_define_function": "name.*already.*a function[^ ]|name.*already.*a function$",
    "failed_to_define_parameter": "name.*already.*parameter",
    "failed_to_define_variable": "name.*already.*variable",
    "reference_to_undefined_variable": "not defined",
    "assignment_of_undefined_variable": "assign.*not defined",
    "call_to_undefined_function": "call.*undefined function",
    "width_not_integer": "width.*integer",
    "width_invalid": "width",
    "let_variable_in_constant_expression": "variables.*constant expression",
    "parameter_in_constant_expression": "parameters.*constant expression",
    "function_in_expression": "function in an expression",
    "execution_error": "execution",
    "evaluation_error": "evaluation",
    "condition_not_bool": "condition.*bool",
    "invalid_integer_literal": "literal.*(too large|invalid)",
    "assigning_parameter": "cannot assign.*parameter",
    "assigning_function": "cannot assign.*function[.]",
    "assigning_const": "cannot assign.*const",
    "call_non_function": "cannot call.*not a function",
    "wrong_number_of_arguments": "number of arguments",
    "codegen_call_to_unanalyzed": "not yet complete",
    "width_deduction_from_non_uint": "deduce.*width",
    "static_assert_expression_not_bool": "static assertion.*bool",
    "static_assertion_failed": "static assertion failed",
    "requires_clause_not_bool": "requires-clause.*bool",
    "requires_clause_not_satisfied": "requires-clause.*not satisfied",
    "use_of_undefined_variable": "undefined variable",
    "use_of_undefined_constant": "undefined constant",
    "empty_return_in_non_void_function": "return nothing.*non-void",
    "void_operation": "void",
    "bool_arithmetic": "arithmetic.*bool",
    "bool_bitwise": "bitwise.*bool",
    "bool_relational_comparison": "relational.*bool",
    "int_bitwise": "bitwise.*'int'",
    "int_logical": "logical.*'int'",
    "uint_logical": "logical.*'uint'",
    "non_bool_logical": "logical.*only.*bool",
    "incompatible_types": "incompatible types|invalid conversion.*return|non-empty return.*void",
    "incompatible_widths": "incompatible.*widths",
    "wrong_argument_type": "argument types",
    "break_outside_loop": "break.*not inside",
    "continue_outside_loop": "continue.*not inside",
    "annotation_unknown": "unknown annotation",
    "annotation_not_applicable": "annotation cannot be applied",
    "annotation_too_many_arguments": "too many arguments",
    "annotation_unknown_parameter": "not match any.*parameter",
    "annotation_argument_duplicate": "twice.*same parameter",
    "annotation_argument_wrong_type": "argument type.*invalid",
    "annotation_argument_wrong_value": "value.*not allowed",
    "annotation_missing_argument": "missing.*required argument",
}
REASONS = {
    "division_by_zero": "division by zero",
    "shift_too_much": "shift",
    "assertion_fail": "assertion failed",
    "int_overflow": "too large.*int",
    "int_to_uint_range_error": "conversion.*int.*uint",
    "load_uninitialized": "uninitialized",
}
LEXICAL = {
    "illegal_character": "illegal character",
    "integer_suffix": "suffix after integer",
    "unterminated_comment": "unterminated.*comment",
    "unterminated_string": "unterminated string",
    "no_digits_following_integer_prefix": "prefix.*followed by.*digit",
}
BMD = {
    "unexpected_character": "unexpected (character|end of file)",
    "unexpected_eof": "end of file",
    "unterminated_comment": "unterminated comment",
    "invalid_integer_literal": "invalid integer",
    "integer_suffix": "suffix",
    "invalid_directive": "invalid directive",
    "duplicate_argument": "duplicate argument",
    "directive_must_be_empty": "must have an empty block or no block",
    "paragraph_break_in_span": "paragraph breaks.*not allowed",
    "directive_in_text_span": "no directives",
    "text_in_directive_list": "no plaintext",
    "directive_not_allowed": "directive is not allowed here",
    "meta_not_at_start_of_file": "meta.*beginning",
    "duplicate_meta_entry": "meta.*unique",
    "invalid_language": "language",
    "invalid_architecture": "architecture",
    "number_attribute_not_allowed": "numeric value",
    "code_tokenization_failure": "highlighting.*failed",
}
KIND_NAMES = {"string": "string", "int": "integer", "bool": "boolean"}
CONSTRAINTS = {"limit": "1.*128", "n": "1.*128", "function": "non-empty", "include": "non-empty",
               "method": "non-empty", "since": "version"}
LINE = re.compile(r"(?:(?P<file>[^\n]*?):(?P<line>\d+):(?P<col>\d+)|\(internal\)): (?P<kind>error|note): "
                  r"(?P<text>[^\n]*)\n(?: *\d+ \| [^\n]*\n +\| +\^\n)?")
OPERATORS = {"equals": "==", "not_equals": "!=", "less_than": "<", "greater_than": ">", "less_or_equal": "<=",
             "greater_or_equal": ">="}
NAMED = {"identifier": "identifier", "decimal_literal": "decimal literal", "octal_literal": "octal literal",
         "hexadecimal_literal": "hexadecimal literal", "binary_literal": "binary literal",
         "string_literal": "string.literal"}
INTERNAL = re.compile("internal error", re.I)


class Said:
    """A rendered diagnostic taken apart: [(kind, (line, column) or None, text)]."""

    def __init__(self, text):
        self.lines, at = [], 0
        while m := LINE.match(text, at):
            pos = None if m["line"] is None else (int(m["line"]) - 1, int(m["col"]) - 1)
            self.lines.append((m["kind"], pos, m["text"]))
            at = m.end()
        self.rest = text[at:]
        self.error = self.lines[0][2] if self.lines else ""
        self.notes = self.lines[1:]

    def note(self, pattern):
        return next((n for n in self.notes if re.search(pattern, n[2], re.I)), None)


def shown(v):
    t, x = v
    if t == "Bool":
        return "true" if x else "false"
    return str(x)


def token_names(t):
    if t in NAMED:
        return NAMED[t]
    return re.escape(f"'{ref_lex.SPELLING[t]}'") if t in ref_lex.SPELLING else None


class C27(Check):
    id = "C27"
    rule = ("erroneous programs and documents of every kind: lexical and syntax errors, name, type, width and "
            "annotation errors, failing evaluations, assertions and comparisons of values of every type; distinct "
            "by source text; oracle: the printed messages and notes against the reference lexer, parser, semantics "
            "and annotation signatures: kind of error, reason, place of the other party, compared values, widths, "
            "tokens, parameters")

    def cases(self, tier):
        return 100000 if tier == "quick" else 1500000

    def case(self, ctx, i):
        k = i % 12
        if k == 0:
            return self.lexical(ctx)
        if k == 1:
            return self.syntax(ctx, i)
        if k == 2:
            return self.document(ctx, i)
        if k in (3, 4):
            return self.annotations(ctx)
        if k in (5, 6, 7):
            return self.comparisons(ctx, i)
        return self.semantic(ctx, i)

    # ------------------------------------------------------------ requests

    def ask(self, ctx, src, mode="bms"):
        """The result with an error, or None."""
        r = ctx.ask(mode, src, "d" if mode == "bms" else "hd", 5)
        p = problem_of(r)
        if p is not None:
            if p["kind"] == "hang" and "while" in src:
                ctx.stats["not_terminating"] += 1
                return None
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        r = r["result"]
        ctx.stats["evaluations"] += 1
        if "rendered" not in r:
            ctx.stats["without_error"] += 1
            return None
        ctx.stats.saw(src)
        ctx.stats.hit(f"{r['stage']}:{r.get('code')}:{r.get('detail', '')}")
        if INTERNAL.search(r["rendered"]) and not INTERNAL.search(src):
            ctx.fail("the mistake in the program is reported as an internal error", source=src,
                     rendered=r["rendered"])
        if ctx.stats["evaluations"] % 997 == 1:
            ctx.stats.sample({"source": src[:300], "rendered": r["rendered"][:500]})
        return r

    def says(self, ctx, src, r, table):
        """The message of the error is the one of its kind."""
        s = Said(r["rendered"])
        def bad(what):
            ctx.fail(what, source=src, rendered=r["rendered"])
        if not s.lines or s.lines[0][0] != "error":
            bad("the diagnostic does not begin with an error")
        want = table.get(r["code"])
        if want is not None:
            ctx.stats["messages_checked"] += 1
            if not re.search(want, s.error, re.I):
                bad(f"{r['code']} is explained as {s.error!r}")
        return s, bad

    # ------------------------------------------------------------ lexical and syntax errors

    def lexical(self, ctx):
        rng = ctx.rng
        src = soup.soup(rng) if rng.random() < .3 else soup.mutate(rng, c14.program(rng))
        r = self.ask(ctx, src)
        if r is None or r["stage"] != "tokenize":
            return
        s, bad = self.says(ctx, src, r, LEXICAL)
        if s.notes:
            bad("a lexical error has notes")

    def syntax(self, ctx, i):
        rng = ctx.rng
        src = c03.make(ctx, 10 ** 6 + i * 7 % 5000)[1] if rng.random() < .5 else \
            soup.mutate_tokens(rng, c14.program(rng))
        r = self.ask(ctx, src)
        if r is None or r["stage"] != "parse":
            return
        s = Said(r["rendered"])
        ctx.stats["messages_checked"] += 1

        def bad(what):
            ctx.fail(what, source=src, rendered=r["rendered"], token=r["token"], expected=r["expected"])
        toks, _ = ref_lex.lex(src)
        at = next((t for t in toks if t.begin == r["pos"][0]), None)
        name = token_names(at.type) if at is not None else None
        if name is not None and not re.search(rf"unexpected token {name} ", s.error):
            bad("the message names another token than the unexpected one")
        if f"'{r['code']}'" not in s.error:
            bad("the message does not name the rule that is not matched")
        if len(s.notes) != 1:
            bad("the expected tokens are not noted")
        m = re.fullmatch(r"expected (?:one of: )?(.*)", s.notes[0][2])
        if m is None:
            bad("the expected tokens are not noted")
        listed = split_list(m[1])
        want = [token_names(t) for t in r["expected"]]
        if None in want:
            return
        ctx.stats["token_lists_checked"] += 1
        ctx.stats.hit(f"list of {len(want)}")
        if len(want) != len(listed) or not all(re.fullmatch(w, x) for w, x in zip(want, listed)):
            bad(f"the message lists {listed}, the parser expected {r['expected']}")

    # ------------------------------------------------------------ documents

    def document(self, ctx, i):
        rng = ctx.rng
        src = gen_bmd.mutate(rng, gen_bmd.make(rng, 3 if i % 24 == 2 else i // 12))
        r = self.ask(ctx, src, "bmd")
        if r is None:
            return
        ctx.stats["messages_checked"] += 1
        first = r["rendered"]
        if not re.search(BMD.get(r["code"], ""), first, re.I | re.S):
            ctx.fail(f"{r['code']} is explained as {first!r}", source=src)
        if r["code"] == "unexpected_character":
            begin = r["pos"][0]
            if begin >= len(src):
                ok = "unexpected end of file" in first
            else:
                ok = f"unexpected character '{src[begin]}'" in first
            if not ok:
                ctx.fail("the message shows another character than the unexpected one", source=src, rendered=first)
            if "rule" in r and f"'{r['rule']}'" not in first:
                ctx.fail(f"the message does not name the rule {r['rule']}", source=src, rendered=first)

    # ------------------------------------------------------------ annotations

    def annotations(self, ctx):
        rng = ctx.rng
        src = gen_prog.Gen(rng, **SMALL_OPTS).program()
        try:
            ps = c15.points(src)
        except ref_parse.ParseError:
            return
        if not ps:
            return
        few = [p for p in ps if p[1] != "constant"]
        at, construct, before = rng.choice(few or ps)
        src = src[:at] + " " + c15.annotation(rng, construct) + " " + src[at:]
        try:
            tree = ref_parse.parse(src)
        except (ref_parse.ParseError, ref_lex.LexError):
            return
        err = c15.first_error(tree)
        if err is None:
            return
        r = self.ask(ctx, src)
        if r is None or r["code"] != err[0]:
            ctx.stats["other_error"] += 1          # for C15
            return
        s, bad = self.says(ctx, src, r, MESSAGES)
        a, construct = owner(tree, err[1])
        if a is None:
            return
        ctx.stats["annotations_checked"] += 1
        params = {p[0]: p for p in c15.PARAMS.get(a.name, [])}
        here = (a.tok.line, a.tok.column)
        if r["code"] in ("annotation_argument_wrong_type", "annotation_argument_wrong_value"):
            n = s.note(r"^Parameter '")
            given = argument_name(a, err[1])
            if n is None or not n[2].startswith(f"Parameter '{given}' must be "):
                bad(f"the message does not name the parameter {given}")
            want = KIND_NAMES[params[given][1]] if "type" in r["code"] else CONSTRAINTS[given]
            if not re.search(want, n[2].split("must be", 1)[1], re.I):
                bad(f"the message does not say what {given} has to be")
        if r["code"] in ("annotation_argument_wrong_type", "annotation_argument_wrong_value",
                         "annotation_too_many_arguments", "annotation_unknown_parameter",
                         "annotation_argument_duplicate"):
            if not any(p == here for _, p, _ in s.notes):
                bad(f"the annotation at {here} is not mentioned")
        if r["code"] == "annotation_missing_argument" and a.name != "instantiate":
            missing = [p for p in params.values() if not p[2] and not any(argument_name(a, k.tok) == p[0]
                                                                         for k in a.kids)]
            if not any(f"'{p[0]}'" in s.rest + "".join(t for _, _, t in s.notes) for p in missing):
                bad(f"the missing argument {missing[0][0]} is not named")

    # ------------------------------------------------------------ semantic errors

    def comparisons(self, ctx, i):
        """Static assertions and assertions that fail, and widths out of range."""
        rng = ctx.rng
        t = rng.choice(["Int", "Int", "Bool", 128, 128, 127, 64, 65] + WIDTHS[:8])
        op = rng.choice(["==", "!=", "<", ">", "<=", ">="] if t != "Bool" else ["==", "!="])
        a, b = operand(rng, t), operand(rng, t)
        if rng.random() < .2:
            b = a
        g = gen_prog.Gen(rng, **dict(SMALL_OPTS, asserts=False))
        src = g.program() if rng.random() < .2 else ""
        k = rng.randrange(10)
        if k < 4:
            src += f"static_assert({a} {op} {b});\n"
        elif k < 7:
            ty = t if isinstance(t, str) else f"Uint({t})"
            layout = rng.choice(["\n    ", " "])
            src += f"function check(a_: {ty}, b_: {ty}) -> Bool {{{layout}assert(a_ {op} b_);{layout}" \
                   f"return true;{layout}}}\nconst checked = check({a}, {b});\n"
        elif k == 7:
            src += f"const w_: Uint({rng.choice([0, 129, 128 + 256, 1 << 64, (1 << 127) - 1, '-1', '-128', '1 + 128'])}) = 0;\n"
        elif k == 8:
            src += f"const e_ = {operand(rng, t)} {rng.choice(M.BINARY)} {operand(rng, t, True)};\n"
        else:
            w = rng.choice(WIDTHS)
            v = rng.choice([1 << w, (1 << w) - 1, 3 << w, 1, 0])
            v = min(v, (1 << 127) - 1)
            src += rng.choice([f"const n_: Uint({w}) = {v};", f"const n_ = {v} as Uint({w});",
                               f"const n_ = (-{max(v, 1)}) as Uint({w});",
                               f"function n_(a_: Uint({w})) -> Int {{ return 1; }} const m_ = n_({v});",
                               f"function n_(a_: Int) -> Uint({w}) {{ return a_; }} const m_ = n_({v});",
                               f"function n_(a_: Int) -> Int {{ let b_: Uint({w}) = a_; return 0; }} const m_ = n_({v});",
                               f"function n_(a_: Int) -> Int {{ let b_: Int; if a_ < 0 {{ b_ = 1; }} return b_; }} "
                               f"const m_ = n_({v});",
                               f"function n_(a_: Int) -> Int {{ return 1 / (a_ - {v}); }} const m_ = n_({v});"]) + "\n"
        self.compare(ctx, c14.squeeze(rng, src) if rng.random() < .3 else src)

    def semantic(self, ctx, i):
        rng = ctx.rng
        src = c14.program(rng)
        k = i % 4
        if k == 0:
            src = M.mutate_types(rng, src)
        elif k == 1:
            src = M.mutate_names(rng, src)
        elif k == 2:
            src = M.inject_failure(rng, src)
        else:
            src = M.mutate_names(rng, M.mutate_types(rng, src))
        self.compare(ctx, c14.squeeze(rng, src))

    def compare(self, ctx, src):
        try:
            want, _ = S.reference(src)
        except AssertionError:
            want = None
        if want is None or want.consts is not None or want.code in ("lex", "parse"):
            ctx.stats["no_opinion"] += 1
            return
        r = self.ask(ctx, src)
        if r is None or r["stage"] != "analyze":
            return
        if r["code"] != want.code or r.get("detail") != want.detail or list(r["pos"] or []) != list(want.pos or []):
            ctx.stats["other_error"] += 1          # for C05-C09 and C14
            return
        s, bad = self.says(ctx, src, r, MESSAGES)
        everything = " ".join(t for _, _, t in s.lines)
        comparison = s.note("^Comparison evaluated to ")
        if want.detail is not None:
            if not re.search(REASONS[want.detail], everything, re.I) and \
                    not (want.detail == "assertion_fail" and comparison):
                bad(f"the reason, {want.detail}, is not mentioned")
            for d, p in REASONS.items():
                if d != want.detail and s.note(p):
                    bad(f"the reason is {want.detail}, not {d}")
            ctx.stats["reasons_checked"] += 1
        if want.code == "width_invalid":
            if not re.search(rf"(?<![-\d]){want.value}(?!\d)", s.error):
                bad(f"the width is {want.value}")
            if not re.search("positive" if want.value < 0 else "zero" if want.value == 0 else "maximum", s.error):
                bad("the message does not say what is wrong with the width")
            ctx.stats["widths_checked"] += 1
            return
        if want.code == "incompatible_types" and want.value is not None:
            is_void = "void" in s.error.lower()
            if is_void != (want.value == "void"):
                bad("the message does not fit the return type")
        if want.cmp not in (None, "any"):
            if comparison is None:
                bad(f"the compared values {want.cmp} are not mentioned")
            (ta, a), (tb, b) = want.cmp
            text = f"{shown(want.cmp[0])} {OPERATORS[want.value]} {shown(want.cmp[1])}"
            if comparison[2] != "Comparison evaluated to " + text:
                bad(f"the comparison is {text}")
            ctx.stats["comparisons_checked"] += 1
        elif want.cmp is None and comparison is not None:
            bad("there is no comparison to mention")
        if want.cause == "builtin":
            if not any(p is None and "assert" in t for _, p, t in s.notes):
                bad("the builtin function is not mentioned")
            ctx.stats["causes_checked"] += 1
        elif want.cause is not None:
            places = [p for _, p, _ in s.notes]
            if tuple(want.cause[1:]) not in places:
                bad(f"the other party, at {want.cause[1:]}, is not noted")
            ctx.stats["causes_checked"] += 1
        if want.cause is None and any(p is not None and p != tuple(want.pos[1:]) for _, p, _ in s.notes):
            bad("nothing else has a part in the error")

    def finish(self, stats):
        low = [k for k in ("messages_checked", "token_lists_checked", "annotations_checked", "reasons_checked",
                           "widths_checked", "comparisons_checked", "causes_checked") if stats[k] < 20]
        return [f"too few: {', '.join(low)}"] if low else []


def split_list(text):
    """The entries of "a", "a, or b" or "a, b, or c", where ',' is a possible entry."""
    out, rest = [], text
    while rest:
        m = re.match(r"'[^']*'|[^,']+", rest)
        if m is None:
            return [text]
        out.append(m[0].removeprefix("or "))
        rest = rest[m.end():]
        rest = rest.removeprefix(", or ") if rest.startswith(", or ") else rest.removeprefix(", ")
    return out


def owner(tree, tok):
    """The annotation that has an error at a token, and its construct."""
    for n in tree.walk():
        for k in n.kids:
            if k is not None and k.kind == "Attribute_List":
                for a in k.kids:
                    if a.tok is tok or any(x.tok is tok for x in a.kids):
                        return a, n
    return None, None


def argument_name(a, tok):
    """Name of the parameter that the argument at a token of an annotation is for."""
    params = c15.PARAMS.get(a.name, [])
    given = set()
    for arg in a.kids:
        name = arg.key or next((p[0] for p in params if p[0] not in given), None)
        if arg.tok is tok:
            return name
        given.add(name)
    return None


CHECK = C27()
