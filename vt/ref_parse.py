"""Reference parser for BMS: LL(1)-style recursive descent over the documented grammar, with each
rule left-factored so that the parse error is at the first token no valid program continues with."""
import sys

from . import ref_lex

sys.setrecursionlimit(20000)

LITERALS = {"binary_literal", "octal_literal", "decimal_literal", "hexadecimal_literal",
            "keyword_true", "keyword_false"}
ARITH = {"plus", "minus", "multiplication", "division", "remainder"}
COMPARE = {"equals", "not_equals", "less_than", "greater_than", "less_or_equal",
           "greater_or_equal"}
OTHER = {"logical_and", "logical_or", "shift_left", "shift_right", "bitwise_and", "bitwise_or",
         "bitwise_xor"}
UNARY = {"plus", "minus", "logical_not", "bitwise_not"}
TYPES = {"keyword_void": "Void", "keyword_bool": "Bool", "keyword_int": "Int",
         "keyword_uint": "Uint"}


class Node:
    """kind: node name; tok: the token that gives its position; kids: child nodes or None."""
    __slots__ = ("kind", "tok", "kids", "name", "op", "type", "key", "value", "stmt", "info",
                 "paren")

    def __init__(self, kind, tok, kids=(), **kw):
        self.kind, self.tok, self.kids = kind, tok, list(kids)
        self.name = self.op = self.type = self.key = self.value = self.stmt = None
        self.info = None
        for k, v in kw.items():
            setattr(self, k, v)

    def walk(self):
        yield self
        for k in self.kids:
            if k is not None:
                yield from k.walk()

    def dump(self):
        t = self.tok
        d = {"n": self.kind, "p": [t.begin, t.length, t.line, t.column]}
        for a in ("name", "stmt", "op", "type", "key", "value"):
            v = getattr(self, a)
            if v is not None:
                d[a] = v
        d["c"] = [k.dump() if k is not None else None for k in self.kids]
        return d


class ParseError(Exception):
    def __init__(self, tok, at_end):
        self.tok, self.at_end = tok, at_end


class Parser:
    def __init__(self, tokens):
        self.all = tokens
        self.t = [t for t in tokens if t.type not in ("line_comment", "block_comment")]
        self.i = 0

    def type(self, k=0):
        return self.t[self.i + k].type if self.i + k < len(self.t) else None

    def fail(self):
        if self.i < len(self.t):
            raise ParseError(self.t[self.i], False)
        raise ParseError(self.all[-1] if self.all else None, True)

    def want(self, *types):
        if self.type() not in types:
            self.fail()
        self.i += 1
        return self.t[self.i - 1]

    def maybe(self, *types):
        return self.want(*types) if self.type() in types else None

    # ------------------------------------------------------------------
    def program(self):
        ds = [self.declaration()]
        while self.type() is not None:
            ds.append(self.declaration())
        return Node("Program", ds[0].tok, ds)

    def declaration(self):
        a = self.annotations() if self.type() == "at" else None
        t = self.type()
        if t == "keyword_const":
            return self.const(a)
        if t == "keyword_function":
            return self.function(a)
        if t == "keyword_static_assert" and a is None:
            return self.static_assert()
        self.fail()

    def annotations(self):
        out = []
        while self.type() == "at":
            at = self.want("at")
            name = self.want("identifier")
            args = []
            if self.maybe("left_parenthesis"):
                if self.type() != "right_parenthesis":
                    while True:
                        key = self.maybe("identifier")
                        if key is not None:
                            self.want("assign")
                        v = self.want("string_literal", *LITERALS)
                        text = v.text[1:-1] if v.type == "string_literal" else v.text
                        args.append(Node("Annotation_Argument", key or v, [],
                                         key=key.text if key else "", value=text, type=v.type))
                        if not self.maybe("comma"):
                            break
                self.want("right_parenthesis")
            out.append(Node("Attribute", at, args, name=name.text))
        return Node("Attribute_List", out[0].tok, out)

    def const(self, a):
        t = self.want("keyword_const")
        name = self.want("identifier")
        ty = self.type_() if self.maybe("colon") else None
        self.want("assign")
        e = self.expression()
        self.want("semicolon")
        return Node("Const", t, [a, ty, e], name=name.text)

    def let(self, a):
        t = self.want("keyword_let")
        name = self.want("identifier")
        ty = self.type_() if self.maybe("colon") else None
        e = None
        if ty is None or self.type() == "assign":
            self.want("assign")
            e = self.expression()
        self.want("semicolon")
        return Node("Let", t, [a, ty, e], name=name.text)

    def static_assert(self):
        t = self.want("keyword_static_assert")
        e = self.parenthesized()
        self.want("semicolon")
        return Node("Static_Assert", t, [e])

    def function(self, a):
        t = self.want("keyword_function")
        name = self.want("identifier")
        self.want("left_parenthesis")
        params = None
        if self.type() != "right_parenthesis":
            ps = [self.parameter()]
            while self.maybe("comma"):
                ps.append(self.parameter())
            params = Node("Parameter_List", ps[0].tok, ps)
        self.want("right_parenthesis")
        self.want("right_arrow")
        ret = self.type_()
        req = self.expression() if self.maybe("keyword_requires") else None
        return Node("Function", t, [a, params, ret, req, self.block()], name=name.text)

    def parameter(self):
        name = self.want("identifier")
        self.want("colon")
        return Node("Parameter", name, [self.type_()], name=name.text)

    def block(self):
        t = self.want("left_brace")
        out = []
        while not self.maybe("right_brace"):
            out.append(self.statement())
        return Node("Block_Statement", t, out)

    def statement(self):
        if self.type() == "at":
            a = self.annotations()
            if self.type() not in ("keyword_const", "keyword_let", "keyword_if", "keyword_while",
                                   "identifier"):
                self.fail()
            if self.type() == "identifier":
                return self.assignment(a)
        else:
            a = None
        t = self.type()
        if t == "keyword_const":
            return self.const(a)
        if t == "keyword_let":
            return self.let(a)
        if t == "keyword_if":
            return self.if_statement(a)
        if t == "keyword_while":
            w = self.want("keyword_while")
            c = self.expression()
            return Node("While_Statement", w, [a, c, self.block()])
        if t == "keyword_static_assert":
            return self.static_assert()
        if t in ("keyword_break", "keyword_continue"):
            k = self.want(t)
            self.want("semicolon")
            return Node("Break" if t == "keyword_break" else "Continue", k)
        if t == "keyword_return":
            r = self.want(t)
            e = None if self.type() == "semicolon" else self.expression()
            self.want("semicolon")
            return Node("Return_Statement", r, [e])
        if t == "left_brace":
            return self.block()
        if t == "identifier":
            if self.type(1) == "assign":
                return self.assignment(None)
            c = self.call()
            self.want("semicolon")
            c.stmt = True
            return c
        self.fail()

    def if_statement(self, a):
        t = self.want("keyword_if")
        c = self.expression()
        b = self.block()
        e = None
        if self.maybe("keyword_else"):
            e = self.if_statement(None) if self.type() == "keyword_if" else self.block()
        return Node("If_Statement", t, [a, c, b, e])

    def assignment(self, a):
        name = self.want("identifier")
        self.want("assign")
        e = self.expression()
        self.want("semicolon")
        return Node("Assignment", name, [a, e], name=name.text)

    # ------------------------------------------------------------------
    def expression(self):
        p = self.prefix()
        if self.maybe("keyword_as"):
            return Node("Conversion_Expression", p.tok, [p, self.type_()])
        return self.if_expression(p)

    def if_expression(self, p):
        left = self.binary(p)
        if not self.maybe("keyword_if"):
            return left
        c = self.binary(self.prefix())
        self.want("keyword_else")
        return Node("If_Expression", left.tok, [left, c, self.if_expression(self.prefix())])

    def binary(self, left):
        t = self.type()
        if t in OTHER:
            op = self.want(t)
            return Node("Binary_Expression", op, [left, self.prefix()], op=t)
        if t in ARITH:
            op = self.want(t)
            left = Node("Binary_Expression", op, [left, self.prefix()], op=t)
            t = self.type()
        if t in COMPARE:
            op = self.want(t)
            right = self.prefix()
            k = self.type()
            if k in ARITH:
                o = self.want(k)
                right = Node("Binary_Expression", o, [right, self.prefix()], op=k)
            return Node("Binary_Expression", op, [left, right], op=t)
        return left

    def prefix(self):
        u = self.maybe(*UNARY)
        if u:
            return Node("Prefix_Expression", u, [self.postfix()], op=u.type)
        return self.postfix()

    def postfix(self):
        t = self.type()
        if t == "identifier":
            if self.type(1) == "left_parenthesis":
                return self.call()
            k = self.want(t)
            return Node("Id_Expression", k, name=k.text)
        if t in LITERALS:
            k = self.want(t)
            return Node("Literal", k, name=k.text, type=t)
        if t == "left_parenthesis":
            return self.parenthesized()
        self.fail()

    def call(self):
        name = self.want("identifier")
        self.want("left_parenthesis")
        args = []
        if self.type() != "right_parenthesis":
            args.append(self.expression())
            while self.maybe("comma"):
                args.append(self.expression())
        self.want("right_parenthesis")
        a = self.annotations() if self.type() == "at" else None
        return Node("Function_Call_Expression", name, args + [a], name=name.text, stmt=False)

    def parenthesized(self):
        self.want("left_parenthesis")
        e = self.expression()
        self.want("right_parenthesis")
        return e

    def type_(self):
        t = self.want(*TYPES)
        w = self.parenthesized() if t.type == "keyword_uint" else None
        return Node("Type", t, [w], type=TYPES[t.type])


def parse(source):
    """Returns the Program node.  Raises LexError or ParseError."""
    toks, err = ref_lex.lex(source)
    if err is not None:
        raise err
    return Parser(toks).program()
