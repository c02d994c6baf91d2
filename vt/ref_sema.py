"""Reference semantics of BMS: name lookup, type rules, constant evaluation (tree walking).

Written from the language rules, not from the compiler's algorithms: functions are interpreted
directly over the syntax tree, names are resolved per function instance."""
import copy

from . import ref_lex, ref_parse

IMAX, IMIN = (1 << 127) - 1, -(1 << 127)
VOID, BOOL, INT = ("Void",), ("Bool",), ("Int",)


def uint(n):
    return ("Uint", n)


def type_name(t):
    return f"Uint({t[1]})" if t[0] == "Uint" else t[0]


ARITH = {"plus", "minus", "multiplication", "division", "remainder"}
BITS = {"bitwise_and", "bitwise_or", "bitwise_xor", "shift_left", "shift_right"}
LOGIC = {"logical_and", "logical_or"}
RELATION = {"less_than", "greater_than", "less_or_equal", "greater_or_equal"}
EQUALITY = {"equals", "not_equals"}


class SemaError(Exception):
    def __init__(self, code, tok=None, detail=None, cmp=None, cause=None, value=None):
        """cause: the token of what the error is about besides tok, "builtin", or None.
        value: the invalid width, or the operator of cmp."""
        super().__init__(code)
        self.code, self.tok, self.detail, self.cmp = code, tok, detail, cmp
        self.cause, self.value = cause, value

    def __repr__(self):
        return f"{self.code}/{self.detail} at {self.tok!r}"


class EvalError(Exception):
    """An operation that has no value."""

    def __init__(self, detail):
        self.detail = detail
        self.cmp = self.op = None
        self.tok = None                        # of the node that has no value


class Exhausted(Exception):
    """The step budget is used up: the reference has no opinion."""


def fits(v):
    if not IMIN <= v <= IMAX:
        raise EvalError("int_overflow")
    return v


def converts(a, b):
    return a == b or (a == INT and b[0] == "Uint")


def common(a, b):
    if a == b:
        return a
    if a[0] == b[0] == "Uint":
        raise SemaError("incompatible_widths")
    if a == INT and b[0] == "Uint":
        return b
    if b == INT and a[0] == "Uint":
        return a
    raise SemaError("incompatible_types")


def unary_type(op, t):
    if t == VOID:
        raise SemaError("void_operation")
    if t == BOOL:
        if op in ("plus", "minus"):
            raise SemaError("bool_arithmetic")
        if op == "bitwise_not":
            raise SemaError("bool_bitwise")
    elif t == INT:
        if op == "bitwise_not":
            raise SemaError("int_bitwise")
        if op == "logical_not":
            raise SemaError("int_logical")
    elif op == "logical_not":
        raise SemaError("uint_logical")
    return t


def binary_type(a, op, b):
    if VOID in (a, b):
        raise SemaError("void_operation")
    t = common(a, b)
    if t == BOOL:
        if op in ARITH:
            raise SemaError("bool_arithmetic")
        if op in BITS:
            raise SemaError("bool_bitwise")
        if op in RELATION:
            raise SemaError("bool_relational_comparison")
        return BOOL
    if t == INT:
        if op in BITS:
            raise SemaError("int_bitwise")
        if op in LOGIC:
            raise SemaError("int_logical")
    elif op in LOGIC:
        raise SemaError("uint_logical")
    return BOOL if op in RELATION or op in EQUALITY else t


def convert(v, a, b):
    if a == b:
        return v
    if not converts(a, b):
        raise EvalError("type_error")
    if not 0 <= v < 1 << b[1]:
        raise EvalError("int_to_uint_range_error")
    return v


def unary_value(op, t, v):
    if op == "logical_not":
        return not v
    if op == "plus":
        return v
    if op == "minus":
        return fits(-v) if t == INT else -v % (1 << t[1])
    return (1 << t[1]) - 1 - v


def binary_value(a, x, op, b, y):
    """x of type a, y of type b; both values known and the types already checked."""
    t = common(a, b)
    x, y = convert(x, a, t), convert(y, b, t)
    if op == "equals":
        return x == y
    if op == "not_equals":
        return x != y
    if op == "less_than":
        return x < y
    if op == "greater_than":
        return x > y
    if op == "less_or_equal":
        return x <= y
    if op == "greater_or_equal":
        return x >= y
    if op == "logical_and":
        return x and y
    if op == "logical_or":
        return x or y
    if op in ("division", "remainder"):
        if y == 0:
            raise EvalError("division_by_zero")
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = q if op == "division" else x - q * y
        # the machine refuses the remainder that goes with an unrepresentable quotient
        if t == INT:
            fits(q)
            return r
        return r
    if op == "plus":
        r = x + y
    elif op == "minus":
        r = x - y
    elif op == "multiplication":
        r = x * y
    elif op == "bitwise_and":
        return x & y
    elif op == "bitwise_or":
        return x | y
    elif op == "bitwise_xor":
        return x ^ y
    else:
        if y >= t[1]:
            raise EvalError("shift_too_much")
        return (x << y) % (1 << t[1]) if op == "shift_left" else x >> y
    return fits(r) if t == INT else r % (1 << t[1])


# ---------------------------------------------------------------------- symbols

class Sym:
    """kind: const, fn, param, let, builtin, generic."""
    __slots__ = ("kind", "name", "node", "type", "value", "done", "fn")

    def __init__(self, kind, name, node=None):
        self.kind, self.name, self.node = kind, name, node
        self.type = self.value = self.fn = None
        self.done = False


class Scope:
    def __init__(self, parent=None):
        self.parent, self.names = parent, {}

    def find(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.parent
        return None

    def define(self, sym, code, tok):
        old = self.find(sym.name)
        if old is not None:
            raise SemaError(code, tok, cause=place(old))
        self.names[sym.name] = sym


def place(sym):
    return "builtin" if sym.kind == "builtin" else sym.node.tok


class Fn:
    UN, SHALLOW, FULL, CONST = range(4)

    def __init__(self, node, top):
        self.node, self.top = node, top        # top: the Sym of the function declaration
        self.generic = False
        self.generics = []                     # names of deduced widths, in parameter order
        self.params = []                       # Syms
        self.generic_params = []               # index of the parameters that deduce them
        self.bind = {}                         # id(node) -> Sym
        self.level = Fn.UN
        self.ret = None
        self.req_done = False
        self.instances = []                    # (widths, Fn)
        self.parent_while = set()              # ids of break/continue nodes inside loops


class Program:
    def __init__(self, tree, max_steps=200000):
        self.tree = tree
        self.steps = max_steps
        self.globals = Scope()
        b = Sym("builtin", "assert")
        self.globals.names["assert"] = b
        self.root = Scope(self.globals)
        self.stack = []
        self.decls = []
        self.consts = {}
        self.calls = 0
        self.seen = set()                      # features observed

    # ------------------------------------------------------------ name lookup
    def lookup(self):
        for n in self.tree.kids:
            if n.kind == "Const":
                s = Sym("const", n.name, n)
                self.root.define(s, "failed_to_define_global_const", n.tok)
            elif n.kind == "Function":
                s = Sym("fn", n.name, n)
                s.fn = Fn(n, s)
                self.root.define(s, "failed_to_define_function", n.tok)
            else:
                s = Sym("static_assert", "", n)
            self.decls.append(s)
        self.gbind = {}
        for s in self.decls:
            n = s.node
            if n.kind == "Const":
                self.resolve(n.kids[1], self.root, self.gbind)
                self.resolve(n.kids[2], self.root, self.gbind)
            elif n.kind == "Static_Assert":
                self.resolve(n.kids[0], self.root, self.gbind)
            else:
                self.resolve_fn(s.fn, None)

    def resolve_fn(self, fn, widths):
        """widths: None for the declaration, else the deduced widths of an instance."""
        n = fn.node
        scope = Scope(self.root)
        params = n.kids[1].kids if n.kids[1] is not None else []
        for i, p in enumerate(params):
            s = Sym("param", p.name, p)
            scope.define(s, "failed_to_define_parameter", p.tok)
            fn.params.append(s)
            w = p.kids[0].kids[0]
            if w is None:
                continue
            if w.kind == "Id_Expression" and scope.find(w.name) is None:
                g = Sym("generic", w.name, w)
                scope.names[w.name] = g
                fn.bind[id(w)] = g
                fn.generics.append(g)
                fn.generic_params.append(i)
                if widths is None:
                    fn.generic = True
                else:
                    g.type, g.value = INT, widths[len(fn.generics) - 1]
                continue
            self.resolve(w, scope, fn.bind)
        self.resolve(n.kids[2], scope, fn.bind)
        self.resolve(n.kids[3], scope, fn.bind)
        self.resolve(n.kids[4], scope, fn.bind)

    def resolve(self, n, scope, bind):
        if n is None:
            return
        k = n.kind
        if k == "Block_Statement":
            inner = Scope(scope)
            for c in n.kids:
                self.resolve(c, inner, bind)
            return
        if k in ("Const", "Let"):
            s = Sym("const" if k == "Const" else "let", n.name, n)
            scope.define(s, "failed_to_define_variable", n.tok)
            bind[id(n)] = s
            self.resolve(n.kids[1], scope, bind)
            self.resolve(n.kids[2], scope, bind)
            return
        if k in ("Assignment", "Function_Call_Expression", "Id_Expression"):
            s = scope.find(n.name)
            if s is None:
                raise SemaError({"Assignment": "assignment_of_undefined_variable",
                                 "Function_Call_Expression": "call_to_undefined_function",
                                 "Id_Expression": "reference_to_undefined_variable"}[k], n.tok)
            bind[id(n)] = s
        for c in n.kids:
            if c is not None and c.kind != "Attribute_List":
                self.resolve(c, scope, bind)

    # ------------------------------------------------------------ analysis
    def run(self, widths=None):
        """Returns {name: (type, value)} of the global constants, or raises SemaError."""
        self.lookup()
        self.pass_()
        if widths is not None:
            for s in self.decls:
                if s.kind == "fn" and s.fn.generic:
                    self.instance(s.fn, [widths] * len(s.fn.generics))
            self.pass_()
        return self.consts

    def pass_(self):
        for s in self.decls:
            if s.kind == "fn":
                self.function(s.fn, Fn.FULL)
            elif s.kind == "const":
                self.const(s, self.gbind, s.node)
                self.consts[s.name] = (s.type, s.value)
            elif not s.done:
                self.static_assert(s.node, self.gbind)
                s.done = True
        old = -1
        while True:
            total = sum(len(s.fn.instances) for s in self.decls if s.kind == "fn")
            if total == old:
                break
            old = total
            for s in self.decls:
                if s.kind == "fn" and s.fn.generic:
                    self.function(s.fn, Fn.FULL)

    def instance(self, fn, widths):
        for w, f in fn.instances:
            if w == widths:
                return f
        f = Fn(copy.deepcopy(fn.node), fn.top)
        self.resolve_fn(f, widths)
        fn.instances.append((list(widths), f))
        self.seen.add("instance")
        return f

    def function(self, fn, level):
        if fn.level >= level:
            return
        if fn.generic:
            i = 0
            while i < len(fn.instances):
                self.function(fn.instances[i][1], level)
                i += 1
            return
        self.stack.append(fn)
        try:
            for s in fn.params:
                s.type = self.type_(s.node.kids[0], fn.bind)
            fn.ret = self.type_(fn.node.kids[2], fn.bind)
            req = fn.node.kids[3]
            if req is not None and not fn.req_done:
                t, v = self.expr(req, fn.bind, Fn.CONST, True)
                fn.req_done = True
                if t != BOOL:
                    raise SemaError("requires_clause_not_bool", req.tok, cause=fn.node.tok)
                if not v:
                    raise SemaError("requires_clause_not_satisfied", req.tok, cause=fn.node.tok)
            fn.level = max(fn.level, Fn.SHALLOW)
            if level >= Fn.FULL:
                self.statement(fn.node.kids[4], fn, level, False)
            fn.level = level
        finally:
            self.stack.pop()

    def type_(self, n, bind):
        if n.info is not None:
            return n.info
        w = n.kids[0]
        if w is None:
            n.info = (n.type,)
            return n.info
        t, v = self.expr(w, bind, Fn.CONST, True)
        if t != INT and t[0] != "Uint":
            raise SemaError("width_not_integer", w.tok)
        if not 1 <= v <= 128:
            raise SemaError("width_invalid", w.tok, value=v)
        n.info = uint(v)
        return n.info

    def const(self, s, bind, n):
        if s.done:
            return
        if n.kids[1] is None:
            s.type, s.value = self.expr(n.kids[2], bind, Fn.CONST, True)
        else:
            want = self.type_(n.kids[1], bind)
            t, v = self.expr(n.kids[2], bind, Fn.CONST, True)
            if not converts(t, want):
                raise SemaError("incompatible_types", n.tok, cause=n.kids[2].tok)
            try:
                s.value = convert(v, t, want)
            except EvalError as e:
                raise SemaError("evaluation_error", n.tok, e.detail, cause=n.kids[2].tok)
            s.type = want
        s.done = True

    def static_assert(self, n, bind):
        if n.info is not None:
            return
        e = n.kids[0]
        t, v = self.expr(e, bind, Fn.CONST, True)
        if t != BOOL:
            raise SemaError("static_assert_expression_not_bool", n.tok, cause=e.tok)
        if not v:
            cmp = None
            if e.kind == "Binary_Expression" and (e.op in RELATION or e.op in EQUALITY):
                cmp = e.info
            raise SemaError("static_assertion_failed", n.tok, cmp=cmp, cause=e.tok, value=e.op)
        n.info = True

    def statement(self, n, fn, level, in_loop):
        if n is None:
            return
        k, bind = n.kind, fn.bind
        if k == "Block_Statement":
            for c in n.kids:
                self.statement(c, fn, level, in_loop)
        elif k == "Const":
            self.const(bind[id(n)], bind, n)
        elif k == "Let":
            s = bind[id(n)]
            if n.kids[1] is None:
                t, _ = self.expr(n.kids[2], bind, level, False)
                s.type = t
            else:
                want = self.type_(n.kids[1], bind)
                if n.kids[2] is not None:
                    t, _ = self.expr(n.kids[2], bind, level, False)
                    if not converts(t, want):
                        raise SemaError("incompatible_types", n.tok, cause=n.kids[2].tok)
                s.type = want
            s.done = True
        elif k == "Static_Assert":
            self.static_assert(n, bind)
        elif k in ("If_Statement", "While_Statement"):
            t, _ = self.expr(n.kids[1], bind, level, False)
            if t != BOOL:
                raise SemaError("condition_not_bool", n.tok, cause=n.kids[1].tok)
            self.statement(n.kids[2], fn, level, in_loop or k == "While_Statement")
            if k == "If_Statement":
                self.statement(n.kids[3], fn, level, in_loop)
        elif k in ("Break", "Continue"):
            if not in_loop:
                raise SemaError(k.lower() + "_outside_loop", n.tok)
        elif k == "Return_Statement":
            e = n.kids[0]
            if e is None:
                if fn.ret != VOID:
                    raise SemaError("empty_return_in_non_void_function", n.tok, cause=fn.node.kids[2].tok)
                return
            t, _ = self.expr(e, bind, level, False)
            if not converts(t, fn.ret):
                raise SemaError("incompatible_types", n.tok, cause=fn.node.kids[2].tok,
                                detail="void" if fn.ret == VOID else "return")
        elif k == "Assignment":
            s = bind[id(n)]
            if s.kind == "param":
                raise SemaError("assigning_parameter", n.tok, cause=place(s))
            if s.kind in ("fn", "builtin"):
                raise SemaError("assigning_function", n.tok, cause=place(s))
            if s.kind == "const":
                raise SemaError("assigning_const", n.tok, cause=place(s))
            if s.kind == "generic":
                raise SemaError("assigning_const", n.tok, cause=place(s))
            t, _ = self.expr(n.kids[1], bind, level, False)
            if not converts(t, s.type):
                raise SemaError("incompatible_types", n.tok, cause=n.kids[1].tok)
        elif k == "Function_Call_Expression":
            self.expr(n, bind, level, False)
        else:
            raise AssertionError(k)

    def expr(self, n, bind, level, const):
        """Type and (None if unknown) value.  const: a value is required."""
        k = n.kind
        if k == "Literal":
            if n.type in ("keyword_true", "keyword_false"):
                return BOOL, n.type == "keyword_true"
            v = ref_lex.int_value(n.name)
            if v > IMAX:
                raise SemaError("invalid_integer_literal", n.tok)
            return INT, v
        if k == "Id_Expression":
            s = bind[id(n)]
            if s.kind == "generic":
                return INT, s.value
            if s.kind == "param":
                if const:
                    raise SemaError("parameter_in_constant_expression", n.tok, cause=place(s))
                return s.type, None
            if s.kind in ("fn", "builtin"):
                raise SemaError("function_in_expression", n.tok, cause=place(s))
            if s.kind == "let":
                if const:
                    raise SemaError("let_variable_in_constant_expression", n.tok, cause=place(s))
                if not s.done:
                    raise SemaError("use_of_undefined_variable", n.tok, cause=place(s))
                return s.type, None
            if not s.done:
                raise SemaError("use_of_undefined_constant", n.tok, cause=place(s))
            return s.type, s.value
        if k == "Conversion_Expression":
            t, v = self.expr(n.kids[0], bind, level, const)
            want = self.type_(n.kids[1], bind)
            if not converts(t, want):
                raise SemaError("incompatible_types", n.tok, cause=n.kids[1].tok)
            return want, self.fold(n, const, v is None, lambda: convert(v, t, want))
        if k == "Prefix_Expression":
            t, v = self.expr(n.kids[0], bind, level, const)
            r = self.typed(n, unary_type, n.op, t)
            return r, self.fold(n, const, v is None, lambda: unary_value(n.op, t, v))
        if k == "Binary_Expression":
            a, x = self.expr(n.kids[0], bind, level, const)
            right_const = const
            if const and n.op in LOGIC:
                if a != BOOL:
                    raise SemaError("non_bool_logical", n.tok, cause=n.kids[0].tok)
                if x == (n.op == "logical_or"):
                    right_const = False
            b, y = self.expr(n.kids[1], bind, level, right_const)
            r = self.typed(n, binary_type, a, n.op, b)
            n.info = ((a, x), (b, y))
            if n.op in LOGIC and x is not None and x == (n.op == "logical_or"):
                return BOOL, x
            return r, self.fold(n, const, x is None or y is None,
                                lambda: binary_value(a, x, n.op, b, y))
        if k == "If_Expression":
            ct, cv = self.expr(n.kids[1], bind, level, const)
            if ct != BOOL:
                raise SemaError("condition_not_bool", n.tok, cause=n.kids[1].tok)
            a, x = self.expr(n.kids[0], bind, level, const and cv)
            b, y = self.expr(n.kids[2], bind, level, const and not cv)
            t = self.typed(n, common, a, b)
            v, vt = (x, a) if cv else (y, b)
            return t, self.fold(n, const, cv is None or v is None, lambda: convert(v, vt, t))
        if k == "Function_Call_Expression":
            return self.call(n, bind, level, const)
        raise AssertionError(k)

    def typed(self, n, f, *args):
        try:
            return f(*args)
        except SemaError as e:
            e.tok = n.tok
            raise

    def fold(self, n, const, unknown, f):
        if unknown:
            assert not const
            return None
        try:
            return f()
        except EvalError as e:
            if const:
                raise SemaError("evaluation_error", n.tok, e.detail)
            return None

    def call(self, n, bind, level, const):
        nodes = [a for a in n.kids if a is not None and a.kind != "Attribute_List"]
        args = [self.expr(a, bind, level, const) for a in nodes]
        s = bind[id(n)]
        if s.kind == "builtin":
            if len(args) != 1:
                raise SemaError("wrong_number_of_arguments", n.tok, cause="builtin")
            if args[0][0] != BOOL:
                raise SemaError("wrong_argument_type", n.tok, cause="builtin")
            if const and not args[0][1]:
                raise SemaError("evaluation_error", n.tok, "assertion_fail", cause="builtin")
            return VOID, (0 if args[0][1] else None)
        if s.kind != "fn":
            raise SemaError("call_non_function", n.tok, cause=place(s))
        fn = s.fn
        params = fn.node.kids[1].kids if fn.node.kids[1] is not None else []
        if len(params) != len(args):
            raise SemaError("wrong_number_of_arguments", n.tok, cause=fn.node.tok)
        if fn.generic:
            widths = []
            for i in fn.generic_params:
                if args[i][0][0] != "Uint":
                    raise SemaError("width_deduction_from_non_uint", nodes[i].tok,
                                    cause=params[i].kids[0].kids[0].tok)
                widths.append(args[i][0][1])
            fn = self.instance(fn, widths)
        inner = Fn.CONST if const or level == Fn.CONST else Fn.SHALLOW
        if inner == Fn.CONST and fn in self.stack:
            raise SemaError("codegen_call_to_unanalyzed", n.tok, cause=fn.node.tok)
        self.function(fn, inner)
        values = []
        for s, (t, v) in zip(fn.params, args):
            if not converts(t, s.type):
                raise SemaError("incompatible_types", n.tok, cause=s.node.tok)
            if const:
                try:
                    values.append(convert(v, t, s.type))
                except EvalError as e:
                    raise SemaError("evaluation_error", n.tok, e.detail, cause=s.node.tok)
        n.info = fn
        if not const:
            return fn.ret, None
        try:
            v = self.invoke(fn, values)
        except EvalError as e:
            if e.detail == "load_uninitialized":
                raise SemaError("execution_error", n.tok, e.detail, cause=e.tok)
            raise SemaError("evaluation_error", n.tok, e.detail, e.cmp, cause=e.tok, value=e.op)
        return fn.ret, v

    # ------------------------------------------------------------ execution
    def step(self):
        self.steps -= 1
        if self.steps < 0:
            raise Exhausted()

    def invoke(self, fn, values):
        self.calls += 1
        env = dict(zip(map(id, fn.params), values))
        r = self.exec(fn.node.kids[4], fn, env)
        if r is not None and r[0] == "return":
            return r[1]
        if fn.ret == VOID:
            return 0
        err = EvalError("load_uninitialized")
        err.tok = fn.node.tok
        raise err

    def exec(self, n, fn, env):
        """None, or ('return', v), ('break',), ('continue',)."""
        return self.noting(self.exec_, n, fn, env)

    def eval(self, n, fn, env):
        return self.noting(self.eval_, n, fn, env)

    def noting(self, f, n, fn, env):
        try:
            return f(n, fn, env)
        except EvalError as e:
            if e.tok is None:
                e.tok = n.tok
            raise

    def exec_(self, n, fn, env):
        self.step()
        k, bind = n.kind, fn.bind
        if k == "Block_Statement":
            for c in n.kids:
                r = self.exec(c, fn, env)
                if r is not None:
                    return r
            return None
        if k == "Let":
            s = bind[id(n)]
            if n.kids[2] is None:
                env.pop(id(s), None)
            else:
                t, v = self.eval(n.kids[2], fn, env)
                env[id(s)] = convert(v, t, s.type)
            return None
        if k == "Assignment":
            s = bind[id(n)]
            t, v = self.eval(n.kids[1], fn, env)
            env[id(s)] = convert(v, t, s.type)
            return None
        if k == "If_Statement":
            if self.eval(n.kids[1], fn, env)[1]:
                return self.exec(n.kids[2], fn, env)
            return self.exec(n.kids[3], fn, env) if n.kids[3] is not None else None
        if k == "While_Statement":
            self.seen.add("while")
            while self.eval(n.kids[1], fn, env)[1]:
                r = self.exec(n.kids[2], fn, env)
                if r is not None and r[0] == "return":
                    return r
                if r is not None and r[0] == "break":
                    break
            return None
        if k == "Break":
            return ("break",)
        if k == "Continue":
            return ("continue",)
        if k == "Return_Statement":
            if n.kids[0] is None:
                return ("return", 0)
            t, v = self.eval(n.kids[0], fn, env)
            return ("return", convert(v, t, fn.ret))
        if k == "Function_Call_Expression":
            self.eval(n, fn, env)
        return None                              # const, static_assert: done at analysis

    def eval_(self, n, fn, env):
        self.step()
        k, bind = n.kind, fn.bind
        if k == "Literal":
            return self.expr(n, bind, Fn.CONST, True)
        if k == "Id_Expression":
            s = bind[id(n)]
            if s.kind in ("generic", "const"):
                return s.type, s.value
            if id(s) not in env:
                raise EvalError("load_uninitialized")
            return s.type, env[id(s)]
        if k == "Conversion_Expression":
            t, v = self.eval(n.kids[0], fn, env)
            want = n.kids[1].info
            return want, convert(v, t, want)
        if k == "Prefix_Expression":
            t, v = self.eval(n.kids[0], fn, env)
            return unary_type(n.op, t), unary_value(n.op, t, v)
        if k == "Binary_Expression":
            a, x = self.eval(n.kids[0], fn, env)
            if n.op in LOGIC and x == (n.op == "logical_or"):
                return BOOL, x
            b, y = self.eval(n.kids[1], fn, env)
            return binary_type(a, n.op, b), binary_value(a, x, n.op, b, y)
        if k == "If_Expression":
            c = self.eval(n.kids[1], fn, env)[1]
            t, v = self.eval(n.kids[0] if c else n.kids[2], fn, env)
            want = self.static_type(n, fn)
            return want, convert(v, t, want)
        if k == "Function_Call_Expression":
            nodes = [a for a in n.kids if a is not None and a.kind != "Attribute_List"]
            s = bind[id(n)]
            if s.kind == "builtin":
                e = nodes[0]
                v = self.eval(e, fn, env)[1]
                if not v:
                    err = EvalError("assertion_fail")
                    err.cmp = self.comparison(e, fn, env)
                    err.op = e.op
                    raise err
                return VOID, 0
            f = n.info
            values = []
            for p, a in zip(f.params, nodes):
                t, v = self.eval(a, fn, env)
                values.append(convert(v, t, p.type))
            return f.ret, self.invoke(f, values)
        raise AssertionError(k)

    def comparison(self, e, fn, env):
        """The operands of a failed assertion that is a comparison of values not all constant."""
        if e.kind != "Binary_Expression" or e.op in LOGIC:
            return "any" if any(n.kind == "Binary_Expression" and n.op not in LOGIC
                                for n in e.walk()) else None
        (_, x), (_, y) = e.info
        if x is not None and y is not None:
            return "any"
        return (self.eval(e.kids[0], fn, env), self.eval(e.kids[1], fn, env))

    def static_type(self, n, fn):
        """Type of an expression whose function was analyzed."""
        k = n.kind
        if k == "If_Expression":
            return common(self.static_type(n.kids[0], fn), self.static_type(n.kids[2], fn))
        if k == "Literal":
            return BOOL if n.type in ("keyword_true", "keyword_false") else INT
        if k == "Id_Expression":
            return fn.bind[id(n)].type
        if k == "Conversion_Expression":
            return n.kids[1].info
        if k == "Prefix_Expression":
            return self.static_type(n.kids[0], fn)
        if k == "Binary_Expression":
            return binary_type(self.static_type(n.kids[0], fn), n.op,
                               self.static_type(n.kids[1], fn))
        if fn.bind[id(n)].kind == "builtin":
            return VOID
        return n.info.ret


def analyze(source, widths=None, max_steps=200000):
    """Returns (Program, consts); raises LexError, ParseError, SemaError or Exhausted."""
    p = Program(ref_parse.parse(source), max_steps)
    return p, p.run(widths)
