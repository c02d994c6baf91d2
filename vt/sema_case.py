"""Runs programs through the compiler and through the reference semantics and compares."""
from . import ref_lex, ref_parse, ref_sema
from .core import problem_of
from .ref_sema import type_name

NAME_CODES = {
    "failed_to_define_global_const", "failed_to_define_function", "failed_to_define_parameter",
    "failed_to_define_variable", "reference_to_undefined_variable",
    "assignment_of_undefined_variable", "call_to_undefined_function",
    "use_of_undefined_variable", "use_of_undefined_constant", "function_in_expression",
    "call_non_function", "assigning_parameter", "assigning_function", "assigning_const",
    "parameter_in_constant_expression", "let_variable_in_constant_expression"}
EVAL_CODES = {"evaluation_error", "execution_error", "static_assertion_failed",
              "requires_clause_not_satisfied", "width_invalid"}


class Outcome:
    """consts: dict name -> [type, value]; or code (and detail, pos, cmp)."""

    def __init__(self, consts=None, code=None, detail=None, pos=None, cmp=None):
        self.consts, self.code, self.detail, self.pos, self.cmp = consts, code, detail, pos, cmp
        self.cause = self.value = None         # of an error, as in SemaError

    def __repr__(self):
        if self.consts is not None:
            return "accepted"
        return f"{self.code}" + (f"/{self.detail}" if self.detail else "")

    def key(self):
        return (self.consts is not None, self.code, self.detail)


def value_text(t, v):
    if t == ref_sema.BOOL:
        v = int(v)
    return [type_name(t), v]


def position(tok):
    return None if tok is None else [tok.begin, tok.line, tok.column]


def reference(src, widths=None, steps=60000):
    """Outcome, or None if the reference has no opinion (too long)."""
    p = None
    try:
        p = ref_sema.Program(ref_parse.parse(src), steps)
        c = p.run(widths)
        return Outcome({k: value_text(t, v) for k, (t, v) in c.items()}), p
    except ref_lex.LexError:
        return Outcome(code="lex"), p
    except ref_parse.ParseError:
        return Outcome(code="parse"), p
    except ref_sema.SemaError as e:
        cmp = e.cmp if e.cmp in (None, "any") else [value_text(*x) for x in e.cmp]
        out = Outcome(None, e.code, e.detail, position(e.tok), cmp)
        out.cause = position(e.cause) if isinstance(e.cause, ref_lex.Tok) else e.cause
        out.value = e.value
        if out.detail in ("void", "return"):   # of the function a value is returned from
            out.detail, out.value = None, out.detail
        return out, p
    except (ref_sema.Exhausted, RecursionError):
        return None, p


def actual(ctx, src, widths=None, flags="v", cpu=10):
    """Outcome plus the raw result; a problem raises a violation."""
    if widths is not None:
        flags += f":i{widths}"
    r = ctx.ask("bms", src, flags, cpu)
    p = problem_of(r)
    if p is not None:
        ctx.fail(f"{p['kind']}: {p['what']}", source=src)
    r = r["result"]
    if r["stage"] == "ok":
        return Outcome(r.get("consts", {})), r
    if r["stage"] == "tokenize":
        return Outcome(code="lex"), r
    if r["stage"] == "parse":
        return Outcome(code="parse"), r
    return Outcome(None, r["code"], r.get("detail"), r.get("pos"), r.get("cmp")), r


def cmp_differs(want, got):
    return want.cmp != "any" and want.cmp != got.cmp


def diff_consts(want, got):
    for k, v in want.items():
        if k not in got:
            return f"constant {k} is missing"
        if list(got[k]) != list(v):
            return f"constant {k} is {got[k]}, expected {v}"
    for k in got:
        if k not in want:
            return f"unexpected constant {k}"
    return None
