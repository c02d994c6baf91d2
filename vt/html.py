"""A strict reader of the HTML the converter writes: any deviation from well-formedness raises."""
import re

_TAG = re.compile(r"<(/?)([A-Za-z_][A-Za-z0-9_-]*)((?:\s+[A-Za-z_][A-Za-z0-9_-]*(?:=(?:\"[^\"]*\"|[^\s\"'=<>`]+))?)*)\s*(/?)>")
_ATTR = re.compile(r"\s+([A-Za-z_][A-Za-z0-9_-]*)(?:=(?:\"([^\"]*)\"|([^\s\"'=<>`]+)))?")
_ENT = {"lt": "<", "gt": ">", "amp": "&", "quot": '"', "apos": "'", "#39": "'", "#34": '"', "nbsp": "\xa0"}
ANSI = re.compile(r"\x1b\[[0-9;]*m")


class NotWellFormed(Exception):
    pass


def unescape(t, where):
    out, i = [], 0
    while True:
        j = t.find("&", i)
        if j < 0:
            out.append(t[i:])
            return "".join(out)
        out.append(t[i:j])
        m = re.compile(r"&([a-z]+|#\d+);").match(t, j)
        if not m or m.group(1) not in _ENT:
            raise NotWellFormed(f"unescaped '&' in {where}: {t[max(0, j - 20):j + 20]!r}")
        out.append(_ENT[m.group(1)])
        i = m.end()


def events(s, comments=False):
    """[('open', tag, attrs), ('close', tag), ('empty', tag, attrs), ('text', str)], tags balanced."""
    out, stack, i = [], [], 0
    while i < len(s):
        j = s.find("<", i)
        chunk = s[i:j if j >= 0 else len(s)]
        if chunk:
            if ">" in chunk:
                raise NotWellFormed(f"unescaped '>' in text {chunk[:60]!r}")
            out.append(("text", unescape(chunk, "text")))
        if j < 0:
            break
        if comments and s.startswith("<!--", j):
            end = s.find("-->", j + 4)
            if end < 0:
                raise NotWellFormed("comment is not closed")
            out.append(("comment", s[j + 4:end]))
            i = end + 3
            continue
        m = _TAG.match(s, j)
        if not m:
            raise NotWellFormed(f"not a tag: {s[j:j + 60]!r}")
        close, name, attrs, empty = m.groups()
        d = {}
        for a in _ATTR.finditer(attrs):
            if a.group(1) in d:
                raise NotWellFormed(f"attribute {a.group(1)} twice")
            v = a.group(2) if a.group(2) is not None else a.group(3)
            if v is not None and ("<" in v and a.group(2) is None):
                raise NotWellFormed("bad attribute value")
            d[a.group(1)] = unescape(v, "attribute") if v is not None else ""
        if close:
            if attrs or empty:
                raise NotWellFormed(f"bad closing tag {m.group()!r}")
            if not stack or stack[-1] != name:
                raise NotWellFormed(f"</{name}> closes {stack[-1:] or 'nothing'}")
            stack.pop()
            out.append(("close", name))
        elif empty:
            out.append(("empty", name, d))
        else:
            stack.append(name)
            out.append(("open", name, d))
        i = m.end()
    if stack:
        raise NotWellFormed(f"never closed: {stack}")
    return out


BLOCK = {"p", "ul", "ol", "li", "div", "pre", "hr", "h1", "h2", "h3", "h4", "h5", "h6", "html", "head",
         "body", "link"}
EDGE = BLOCK | {"code"}
WS = re.compile(r"[ \t\r\n]+")


def normal(evs):
    """Joins texts, drops the highlighting tags, collapses white space."""
    joined = []
    for e in evs:
        if e[0] in ("open", "close") and e[1].startswith("c-"):
            continue
        if e[0] == "text" and joined and joined[-1][0] == "text":
            joined[-1] = ("text", joined[-1][1] + e[1])
        else:
            joined.append(e)
    out = []
    for e in joined:
        if e[0] == "text":
            t = WS.sub(" ", e[1])
            if t:
                out.append(("text", t))
        else:
            out.append(e)
    # white space next to a block-level tag means nothing
    final = []
    for k, e in enumerate(out):
        if e[0] == "text":
            t = e[1]
            before = out[k - 1] if k else ("open", "p")
            after = out[k + 1] if k + 1 < len(out) else ("close", "p")
            if before[1] in EDGE:
                t = t.lstrip(" ")
            if after[1] in EDGE:
                t = t.rstrip(" ")
            if t:
                final.append(("text", t))
        else:
            final.append(e)
    return final
