"""Reference BMD parser and HTML conversion, written from the grammar, the directive table and the
documentation of the directives (not from parse.cpp).

Nodes are tuples:
  ("List", begin, end, children)            position compared loosely: see c16
  ("Text", begin, end)
  ("Directive", begin, end, id, {name: (value, begin, end)}, block or None)
"""
import re

SPACE = " \t\n\r"
ESC = "\\{}"
CODES = ["unexpected_character", "unterminated_comment", "invalid_integer_literal", "unexpected_eof",
         "duplicate_argument", "integer_suffix", "invalid_directive", "directive_must_be_empty",
         "paragraph_break_in_span", "directive_in_text_span", "text_in_directive_list",
         "directive_not_allowed"]
# id: (content, environment, tag)
SPANS = {"b": "b", "del": "del", "i": "i", "kbd": "kbd", "q": "q", "s": "s", "sub": "sub",
         "sup": "sup", "tt": "tt", "u": "u"}
DIRECTIVES = {k: ("span", "paragraph", v) for k, v in SPANS.items()}
DIRECTIVES |= {f"h{i}": ("span", "content", f"h{i}") for i in range(1, 7)}
DIRECTIVES |= {
    "br": ("nothing", "paragraph", "br"), "hr": ("nothing", "content", "hr"),
    "c": ("raw", "paragraph", "code"), "codeblock": ("raw", "content", "pre"),
    "instruction": ("text", "paragraph", None), "item": ("span", "list", "li"),
    "ol": ("list", "content", "ol"), "ul": ("list", "content", "ul"),
    "note": ("block", "content", "div"), "meta": ("meta", "content", None),
    "title": ("text", "meta", None), "bmsfun": ("text", "meta", None),
    "cequiv": ("text", "meta", None),
}
ALLOWED = {"span": {"paragraph"}, "block": {"paragraph", "content"}, "meta": {"meta"},
           "list": {"list"}}
_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"0b[01]*|0x[0-9a-fA-F]*|0[0-7]*|[1-9][0-9]*")


class BmdError(Exception):
    def __init__(self, code, pos):
        super().__init__(code, pos)
        self.code, self.pos = code, pos


class Parser:
    def __init__(self, src):
        self.s = src
        self.end = len(src)

    # ---- lexical helpers
    def blank(self, i):
        """(end of blank space, whether it holds an empty line)."""
        s, lines, brk = self.s, 0, False
        while i < self.end:
            two = s[i:min(i + 2, self.end)]
            if two == "//":
                j = s.find("\n", i, self.end)
                if j < 0:
                    raise BmdError("unterminated_comment", self.end)
                i, lines = j + 1, 1
            elif two == "/*":
                j = s.find("*/", i + 2, self.end)
                if j < 0:
                    raise BmdError("unterminated_comment", self.end)
                i, lines = j + 2, 0
            elif s[i] in SPACE:
                if s[i] == "\n":
                    lines += 1
                    brk = brk or lines > 1
                i += 1
            else:
                break
        return i, brk

    def blank_in_line(self, i):
        j, brk = self.blank(i)
        return i if brk else j

    def directive_at(self, i):
        return i < self.end and self.s[i] == "\\" and not (
            i + 1 < self.end and self.s[i + 1] in ESC)

    def text(self, i):
        """The end of the text starting at i (== i if there is none)."""
        s, last, newline = self.s, i, False
        while i < self.end:
            c = s[i]
            if c in SPACE:
                if c == "\n":
                    if newline:
                        break
                    newline = True
                i += 1
                continue
            if c == "/" and i + 1 < self.end and s[i + 1] in "/*":
                break
            if c == "\\":
                if self.directive_at(i):
                    break
                i += 1
            i += 1
            last, newline = i, False
        return last

    def raw_end(self, i):
        """The offset of the brace that closes the block whose content starts at i."""
        s, level = self.s, 0
        while i < self.end:
            c, two = s[i], s[i:min(i + 2, self.end)]
            if c == "}":
                if level == 0:
                    return i
                level -= 1
                i += 1
            elif c == "{":
                level += 1
                i += 1
            elif len(two) == 2 and c == "\\" and two[1] in ESC:
                i += 2
            elif two == "//" or two == "/*":
                close = "\n" if two == "//" else "*/"
                j = s.find(close, i + 2, self.end)
                if j < 0:
                    raise BmdError("unterminated_comment", self.end)
                i = j + len(close)
            else:
                i += 1
        raise BmdError("unexpected_eof", self.end)

    # ---- structure
    def document(self):
        i, _ = self.blank(0)
        return None if i == self.end else self.content(i)

    def content(self, i):
        start, out, para = i, [], []

        def flush():
            if para:
                out.append(("List", para[0][1], para[-1][2], list(para)))
                para.clear()
        while i < self.end:
            if self.directive_at(i):
                d = self.directive(i, "block")
                i = d[2]
                if DIRECTIVES[d[3]][1] == "content":
                    flush()
                    out.append(d)
                else:
                    para.append(d)
            else:
                j = self.text(i)
                assert j > i
                para.append(("Text", i, j))
                i = j
            i, brk = self.blank(i)
            if brk:
                flush()
        flush()
        return ("List", start, i, out)

    def span(self, i):
        start, out = i, []
        while i < self.end:
            i = self.blank_in_line(i)
            j = self.text(i)
            if j > i:
                out.append(("Text", i, j))
                i = j
            elif self.directive_at(i):
                d = self.directive(i, "span")
                out.append(d)
                i = d[2]
            else:
                break
        return ("List", start, i, out), i

    def directive(self, at, context):
        m = _ID.match(self.s, at + 1, self.end)
        if not m:
            raise BmdError("unexpected_eof" if at + 1 >= self.end else "unexpected_character", at + 1)
        name, i = m.group(), m.end()
        if name not in DIRECTIVES:
            raise BmdError("invalid_directive", at + 1)
        content, env, _ = DIRECTIVES[name]
        if env not in ALLOWED[context]:
            raise BmdError("directive_not_allowed", i)
        args, block = {}, None
        if i < self.end and self.s[i] == "[":
            args, i = self.arguments(i + 1)
        if i < self.end and self.s[i] == "{":
            block, i = self.block(i + 1, content)
        return ("Directive", at, i, name, args, block)

    def need(self, i, c):
        if i >= self.end:
            raise BmdError("unexpected_eof", i)
        if self.s[i] != c:
            raise BmdError("unexpected_character", i)
        return i + 1

    def name(self, i):
        m = _ID.match(self.s, i, self.end)
        if not m:
            raise BmdError("unexpected_eof" if i >= self.end else "unexpected_character", i)
        return m

    def arguments(self, i):
        out = {}
        while True:
            m = self.name(self.blank_in_line(i))
            i = self.need(self.blank_in_line(m.end()), "=")
            i = self.blank_in_line(i)
            if i < self.end and self.s[i] in "0123456789":
                n = _NUM.match(self.s, i, self.end)
                lit = n.group()
                if lit in ("0b", "0x"):
                    raise BmdError("invalid_integer_literal", n.end())
                if n.end() < self.end and (self.s[n.end()].isalnum() and self.s[n.end()].isascii()
                                           or self.s[n.end()] == "_"):
                    raise BmdError("integer_suffix", n.end())
                v = int(lit, 8) if len(lit) > 1 and lit[0] == "0" and lit[1] in "01234567" else int(lit, 0)
                if v >= 2 ** 63:
                    raise BmdError("invalid_integer_literal", i)
            else:
                n = self.name(i)
                v = n.group()
            if m.group() in out:
                raise BmdError("duplicate_argument", m.start())
            out[m.group()] = (v, n.start(), n.end())
            i = self.blank_in_line(n.end())
            if i < self.end and self.s[i] == ",":
                i += 1
                continue
            return out, self.need(i, "]")

    def block(self, i, content):
        if content == "nothing":
            j, _ = self.blank(i)
            if j >= self.end or self.s[j] != "}":
                raise BmdError("directive_must_be_empty", j)
            return None, j + 1
        close = self.raw_end(i)
        if content == "raw":
            return (("Text", i, close) if close > i else None), close + 1
        outer, self.end = self.end, close
        node = getattr(self, "in_" + content)(i)
        self.end = outer
        return node, close + 1

    def in_block(self, i):
        return self.content(self.blank(i)[0])

    def in_span(self, i):
        i, brk = self.blank(i)
        if brk:
            raise BmdError("paragraph_break_in_span", i)
        node, i = self.span(i)
        j, brk = self.blank(i)
        if brk:
            raise BmdError("paragraph_break_in_span", i)
        if j < self.end:
            raise BmdError("unexpected_character", j)
        return node

    def in_text(self, i):
        i, brk = self.blank(i)
        if brk:
            raise BmdError("paragraph_break_in_span", i)
        j = self.text(i)
        k, brk = self.blank(j)
        if brk:
            raise BmdError("paragraph_break_in_span", j)
        if self.directive_at(k):
            raise BmdError("directive_in_text_span", k)
        if k < self.end:
            raise BmdError("unexpected_character", k)
        return ("Text", i, j) if j > i else None

    def in_directives(self, i, kind):
        start, out = i, []
        i, _ = self.blank(i)
        while i < self.end:
            if not self.directive_at(i):
                raise BmdError("text_in_directive_list", i)
            d = self.directive(i, kind)
            out.append(d)
            i, _ = self.blank(d[2])
        return ("List", start, i, out)

    def in_list(self, i):
        return self.in_directives(i, "list")

    def in_meta(self, i):
        return self.in_directives(i, "meta")


def parse(src):
    """The root node or None; raises BmdError."""
    return Parser(src).document()


# ------------------------------------------------------------------ HTML

DOC_CODES = ["directive_not_allowed", "meta_not_at_start_of_file", "writer_misuse",
             "duplicate_meta_entry", "invalid_language", "invalid_architecture",
             "number_attribute_not_allowed", "code_tokenization_failure"]
LANGS = {"bmd", "bms", "c", "cxx", "cpp", "plain", "plaintext", "text", "raw", "rust"}
ARCHS = {"x86", "x86_64", "arm", "risc_v", "power", "power_pc", "sparc", "mips", "ibm_z"}
X86 = {"x86", "x86_64"}


class DocError(Exception):
    def __init__(self, code, at):
        super().__init__(code, at)
        self.code, self.at = code, at


def unescape(t):
    return re.sub(r"\\([\\{}])", r"\1", t)


def html(src, root, tokenizes):
    """Expected events ('open', tag, {attrs}) ('text', str) ('close', tag) ('empty', tag, attrs)
    ('code', str, highlighted); text gaps appear as ('text', ' ').  Raises DocError."""
    out = []
    state = {"start": True}

    def attrs(d):
        return {k: str(v[0]) for k, v in d[4].items()}

    def content(node):
        for n in node[3]:
            if n[0] == "List":
                out.append(("open", "p", {}))
                inline(n)
                out.append(("close", "p"))
            else:
                directive(n)

    def inline(node):
        before = None
        for n in node[3]:
            if before is not None and before[2] < n[1]:
                out.append(("text", " "))
            if n[0] == "Text":
                state["start"] = False
                out.append(("text", unescape(src[n[1]:n[2]])))
            else:
                directive(n)
            before = n

    def attribute(d, name, allowed, error):
        if name not in d[4]:
            return None
        v, at, _ = d[4][name]
        if isinstance(v, int):
            raise DocError("number_attribute_not_allowed", at)
        if v not in allowed:
            raise DocError(error, at)
        return v

    def directive(d):
        name, block = d[3], d[5]
        kind, _, tag = DIRECTIVES[name]
        if name == "meta":
            if not state["start"]:
                raise DocError("meta_not_at_start_of_file", d[1])
            state["start"] = False
            title = None
            for c in block[3] if block else []:
                if c[3] == "title":
                    if title is not None:
                        raise DocError("duplicate_meta_entry", c[1])
                    title = c
            if title is not None:
                out.append(("open", "h1", attrs(title)))
                if title[5]:
                    out.append(("text", unescape(src[title[5][1]:title[5][2]])))
                out.append(("close", "h1"))
            return
        state["start"] = False
        if name in ("c", "codeblock"):
            lang = attribute(d, "lang", LANGS, "invalid_language") or "bms"
            code = src[block[1]:block[2]] if block else ""
            if lang == "bms" and block and not tokenizes(code):
                raise DocError("code_tokenization_failure", block[1])
            out.append(("open", tag, {}))
            out.append(("code", code, lang == "bms"))
            out.append(("close", tag))
            return
        if name == "instruction":
            arch = attribute(d, "arch", ARCHS, "invalid_architecture") or "x86"
            ext = d[4].get("ext")
            if ext and isinstance(ext[0], int):
                raise DocError("number_attribute_not_allowed", d[1])
            text = unescape(src[block[1]:block[2]]) if block else ""
            if arch in X86:
                out.append(("open", "a", {"href": "https://www.felixcloutier.com/x86/" + text}))
            out.append(("open", "code", {}))
            out.append(("text", text))
            out.append(("close", "code"))
            if arch in X86:
                out.append(("close", "a"))
            if ext:
                out.append(("open", "sup", {}))
                out.append(("text", ext[0]))
                out.append(("close", "sup"))
            return
        if block is None:
            out.append(("empty", tag, attrs(d)))
            return
        out.append(("open", tag, attrs(d)))
        if kind == "block":
            content(block)
        else:
            inline(block)
        out.append(("close", tag))

    if root is not None:
        content(root)
    return out
