"""Reference lexer for BMS, written from the language description (not from tokenize.cpp).

Columns: every character counts one, a tab four, a carriage return or line feed resets to zero.
"""
import re

KEYWORDS = {
    "as": "keyword_as", "let": "keyword_let", "const": "keyword_const",
    "function": "keyword_function", "while": "keyword_while", "if": "keyword_if",
    "else": "keyword_else", "Uint": "keyword_uint", "Int": "keyword_int", "Bool": "keyword_bool",
    "Void": "keyword_void", "requires": "keyword_requires", "return": "keyword_return",
    "break": "keyword_break", "continue": "keyword_continue", "true": "keyword_true",
    "false": "keyword_false", "static_assert": "keyword_static_assert",
}
# longest first
SYMBOLS = [
    ("==", "equals"), ("!=", "not_equals"), ("<=", "less_or_equal"), (">=", "greater_or_equal"),
    ("<<", "shift_left"), (">>", "shift_right"), ("&&", "logical_and"), ("||", "logical_or"),
    ("->", "right_arrow"), ("=>", "double_right_arrow"),
    ("(", "left_parenthesis"), (")", "right_parenthesis"), ("{", "left_brace"),
    ("}", "right_brace"), ("=", "assign"), ("+", "plus"), ("-", "minus"),
    ("*", "multiplication"), ("/", "division"), ("%", "remainder"), ("<", "less_than"),
    (">", "greater_than"), ("&", "bitwise_and"), ("|", "bitwise_or"), ("~", "bitwise_not"),
    ("^", "bitwise_xor"), ("!", "logical_not"), (".", "dot"), (":", "colon"), (",", "comma"),
    ("@", "at"), (";", "semicolon"),
]
SPELLING = {v: k for k, v in SYMBOLS} | {v: k for k, v in KEYWORDS.items()}

_WS = re.compile(r"[ \r\t\n]*")
_ID = re.compile(r"[_a-zA-Z][_a-zA-Z0-9]*")
_NUM = [
    (re.compile(r"0b[01]+"), "binary_literal"),
    (re.compile(r"0x[0-9a-fA-F]+"), "hexadecimal_literal"),
    (re.compile(r"0[0-7]+"), "octal_literal"),
    (re.compile(r"0|[1-9][0-9]*"), "decimal_literal"),
]
_STR = re.compile(r'"(?:[^"\\]|\\.)*"', re.S)
_IDCHAR = re.compile(r"[_a-zA-Z0-9]")


class Tok:
    __slots__ = ("type", "begin", "length", "line", "column", "text")

    def __init__(self, type, begin, length, line, column, text):
        self.type, self.begin, self.length = type, begin, length
        self.line, self.column, self.text = line, column, text

    def __repr__(self):
        return f"{self.type}@{self.begin}:{self.text!r}"

    def row(self):
        return [self.type, self.begin, self.length, self.line, self.column]


class LexError(Exception):
    def __init__(self, code, begin, line, column):
        super().__init__(code)
        self.code, self.begin, self.line, self.column = code, begin, line, column


def advance(text, line, column):
    for c in text:
        if c == "\n":
            line, column = line + 1, 0
        elif c == "\r":
            column = 0
        elif c == "\t":
            column += 4
        else:
            column += 1
    return line, column


def lex(s):
    """Returns (tokens, error): the tokens before the error, and the LexError or None."""
    out = []
    i, line, col = 0, 0, 0
    n = len(s)
    while True:
        ws = _WS.match(s, i).group()
        line, col = advance(ws, line, col)
        i += len(ws)
        if i >= n:
            return out, None
        c = s[i]
        kind = None
        if s.startswith("//", i):
            e = s.find("\n", i)
            text = s[i:] if e < 0 else s[i:e]
            kind = "line_comment"
        elif s.startswith("/*", i):
            e = s.find("*/", i + 2)
            if e < 0:
                return out, LexError("unterminated_comment", i, line, col)
            text, kind = s[i:e + 2], "block_comment"
        elif c == '"':
            m = _STR.match(s, i)
            if not m:
                return out, LexError("unterminated_string", i, line, col)
            text, kind = m.group(), "string_literal"
        elif c.isascii() and c.isdigit():
            for rx, k in _NUM:
                m = rx.match(s, i)
                if m:
                    text, kind = m.group(), k
                    break
            if s.startswith(("0x", "0b"), i) and len(text) == 1:
                return out, LexError("no_digits_following_integer_prefix", i + 2, line, col + 2)
            e = i + len(text)
            if e < n and _IDCHAR.match(s[e]):
                return out, LexError("integer_suffix", e, line, col + len(text))
        else:
            m = _ID.match(s, i)
            if m:
                text = m.group()
                kind = KEYWORDS.get(text, "identifier")
            else:
                for sym, k in SYMBOLS:
                    if s.startswith(sym, i):
                        text, kind = sym, k
                        break
        if kind is None:
            return out, LexError("illegal_character", i, line, col)
        out.append(Tok(kind, i, len(text), line, col, text))
        line, col = advance(text, line, col)
        i += len(text)


def int_value(text):
    """The number an integer literal spells."""
    if text[:2] in ("0b", "0x"):
        base, digits = (2 if text[1] == "b" else 16), text[2:]
    elif text[0] == "0":
        base, digits = 8, text
    else:
        base, digits = 10, text
    v = 0
    for c in digits:
        v = v * base + int(c, 16)
    return v
