"""C22: the command line tool's exit status and outputs are truthful.

Runs the real tool (built with sanitizers) in a scratch directory per case."""
import os
import re
import resource
import shutil
import signal
import subprocess
import tempfile

from .. import gen_bmd, gen_prog, mutate_prog as M, ref_lex, ref_parse, sema_case as S, soup
from ..core import Check, HarnessError, problem_of

ANSI = re.compile(rb"\x1b\[[0-9;]*m")
# the text of every message for a state of the program that must not happen
BROKEN = re.compile(rb"Unhandled |Assertion failed!|AddressSanitizer|LeakSanitizer|runtime error:"
                    rb"|terminate called")
LANGS = {"bms": "b", "c": "c", "cpp": "p", "c++": "p", "rust": "r", "java": "j", "kotlin": "k",
         "javascript": "s", "typescript": "t", "js": "s", "ts": "t"}
KNOWN = {"bms", "c", "c++", "cpp", "cxx", "rs", "rust", "java", "kotlin", "kt", "js", "javascript", "ts",
         "typescript"}
COMMANDS = ["dump_tokens", "dump_ast", "verify", "generate", "html"]
SAN_EXIT = 86
ENV = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": f"exitcode={SAN_EXIT}:detect_leaks=1:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": f"exitcode={SAN_EXIT}", "LSAN_OPTIONS": f"exitcode={SAN_EXIT}"}


def near(rng, word, known):
    """A word like `word` that is not one of `known`, whatever their case."""
    while True:
        i = rng.randrange(len(word) + 1)
        k = rng.randrange(6)
        extra = rng.choice(list("ax1 -_.,:;/+#=\t\n\xe4") + ["-x", " c", "--", "++", "11", "=1"])
        w = (word[:i] + word[i + 1:] if k == 0 else word[:i] + extra + word[i:] if k == 1 else
             word + extra if k < 4 else extra + word if k == 4 else word + word)
        if w.lower() not in known:
            return w


def left_colored(data):
    """Whether the terminal is left in a colour after this output."""
    codes = re.findall(rb"\x1b\[([0-9;]*)m", data)
    return bool(codes) and codes[-1] not in (b"", b"0")


class Run:
    pass


def program(rng):
    k = rng.random()
    if k < .5:
        src = gen_prog.Gen(rng, functions=2, consts=3, depth=2, generics=.1).program()
        if k < .15:
            src = M.insert_typed(rng, src)
        return src
    if k < .6:
        return gen_prog.Gen(rng, functions=1, consts=1, depth=2).program()[:rng.randrange(200)]
    if k < .65:
        return rng.choice(["", "\n", " ", "//", "// x\n", "\0", "const a = 1;", "const a = 1;\r\nconst b = a;\r\n",
                           "static_assert(false);\n", "const a: Uint(8) = 256;\n", "const a = 1 / 0;\n",
                           "\xef\xbb\xbfconst a = 1;", "const a = 1;\x1a", "function f() -> Int { return f2(); }"])
    if k < .8:
        return soup.mutate(rng, gen_prog.Gen(rng, functions=1, consts=1, depth=2).program())
    return soup.soup(rng)


def padded(rng, src):
    """The same program in a file of a size around a multiple of 4096, sometimes of more than a megabyte: everything
    that matters is at its end."""
    k = rng.random()
    if k > .1:
        return src
    if k < .004:
        size = 4096 * rng.randrange(257, 600)
    else:
        size = 4096 * rng.choice([1, 1, 2, 3, 4, 8, 16, 17])
    while size < len(src) + 8:
        size *= 2
    n = size + rng.choice([-1, 0, 1, 1, 2]) - len(src)
    return "/*" + "\n".join(["." * 99] * ((n - 5) // 100) + ["." * ((n - 5) % 100)]) + "*/\n" + src


class C22(Check):
    id = "C22"
    targets = ("probe", "cli")
    rule = ("command lines (every command, missing and surplus arguments, unknown commands and languages) times input "
            "files (valid, invalid at every stage, empty, missing, directories, unreadable) times outputs (pipe, full "
            "device, closed, existing, missing directory, size limit); distinct by command, source and fault; oracle: "
            "reference lexer, parser and semantics for the outcome, the library's own output for the bytes")
    quick, thorough = 12000, 300000

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough

    # ------------------------------------------------------------------
    def tool(self, d, args, stdout=None, limit=None, closed=False):
        def setup():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if closed:
                os.close(1)
            resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
        r = Run()
        r.args = args
        try:
            p = subprocess.run([self.paths["cli"], *args], cwd=d, env=ENV, stdin=subprocess.DEVNULL,
                               stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE,
                               preexec_fn=setup, timeout=300)
            r.rc, r.out, r.err = p.returncode, p.stdout or b"", p.stderr
        except subprocess.TimeoutExpired:
            raise HarnessError("the tool did not end, although its CPU time is limited") from None
        return r

    def library(self, ctx, mode, src, flags):
        r = ctx.ask(mode, src, flags, 10)
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", source=src)
        return r["result"]

    def case(self, ctx, i):
        d = tempfile.mkdtemp(prefix="vt-c22-")
        try:
            self.one(ctx, ctx.rng, d, i)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def write(self, d, name, src):
        data = src.encode("latin-1") if isinstance(src, str) else src
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)

    def sound(self, ctx, r, what, **more):
        """Whatever happens: no crash, no sanitizer report, and a failure says something."""
        text = r.out + r.err
        if BROKEN.search(text) or r.rc == SAN_EXIT or r.rc < 0:
            ctx.fail(f"{what}: the tool breaks (exit status {r.rc})", output=text[-1500:].decode("latin-1"), **more)
        if left_colored(r.out) and not (r.rc == 0 and r.args[:1] == ["html"]) or left_colored(r.err):
            ctx.fail(f"{what}: the terminal is left in a colour", output=text[-500:].decode("latin-1"), **more)
        if r.rc not in (0, 1):
            ctx.fail(f"{what}: exit status {r.rc}", output=text[-1500:].decode("latin-1"), **more)

    def one(self, ctx, rng, d, i):
        ctx.stats["evaluations"] += 1
        k = i % 10
        if k == 0:
            return self.usage(ctx, rng, d)
        if k == 1:
            return self.bad_input(ctx, rng, d)
        if k in (2, 3, 4):
            return self.document(ctx, rng, d, fault=k == 4)
        return self.source(ctx, rng, d, fault=k == 5)

    # ------------------------------------------------------------------ command lines
    def usage(self, ctx, rng, d):
        self.write(d, "a.bms", "const a = 1;\n")
        self.write(d, "a.bmd", "hello")
        cmds = ["dump_tokens", "dump_ast", "verify", "generate", "html"]
        k = rng.randrange(9)
        if k == 0:
            args = []
        elif k == 1:
            args = [rng.choice(cmds + ["--help", "x", ""])]
        elif k == 2:
            args = ["generate", "a.bms"]
        elif k == 3:
            args = ["generate", "a.bms", rng.choice(["", "x", "Rust2", "cobol", "c ", " c", "BMS!", "cc", "b"])]
        elif k == 4:
            args = [rng.choice(["", "tokens", "Verify", "htm", "html5", "--", "-h", "verify "]), "a.bms"]
        elif k == 7:
            args = ["generate", "a.bms", near(rng, rng.choice(sorted(KNOWN) + ["C", "BMS", "Rust"]), KNOWN)]
        elif k == 8:
            cmd = near(rng, rng.choice(COMMANDS), COMMANDS)
            args = [cmd, rng.choice(["a.bms", "a.bmd"]), "c"]
        elif k == 5:
            name = rng.choice(["a.bmd", "a", "a.bms.txt", "bms", ".bmss", "a.BMS"])
            if not os.path.exists(os.path.join(d, name)):
                self.write(d, name, "const a = 1;\n")
            args = [rng.choice(["dump_tokens", "verify", "generate"]), name, "c"]
        else:
            name = rng.choice(["a", "a.txt", "a.BMD", "bmd", "a.bmd2"])
            self.write(d, name, "hello")
            args = [rng.choice(["dump_ast", "html"]), name]
        ctx.stats.saw("usage", tuple(args))
        ctx.stats.hit(f"usage:{k}")
        r = self.tool(d, args)
        self.sound(ctx, r, f"arguments {args}")
        if r.rc == 0:
            ctx.fail(f"arguments {args} that ask for nothing possible succeed", output=r.out.decode("latin-1"))
        if not (r.out + r.err).strip():
            ctx.fail(f"arguments {args} fail silently")

    def bad_input(self, ctx, rng, d):
        cmd = rng.choice(["dump_tokens", "dump_ast", "verify", "generate", "html"])
        suffix = ".bmd" if cmd == "html" or cmd == "dump_ast" and rng.random() < .5 else ".bms"
        kind = rng.choice(["missing", "missing directory", "directory", "dangling", "loop", "through a file",
                           "read error", "unsearchable name"])
        name = "in" + suffix
        path = os.path.join(d, name)
        if kind == "directory":
            os.mkdir(path)
        elif kind == "missing directory":
            name = "no/in" + suffix
        elif kind == "dangling":
            os.symlink("nowhere" + suffix, path)
        elif kind == "loop":
            os.symlink(name, path)
        elif kind == "through a file":
            self.write(d, "file", "x")
            name = "file/in" + suffix
        elif kind == "read error":
            os.symlink("/proc/self/mem", path)
        elif kind == "unsearchable name":
            name = "x" * 300 + suffix
        args = [cmd, name] + (["c"] if cmd == "generate" else [])
        out = cmd == "html" and rng.random() < .6
        if out:
            self.write(d, "out.html", "before")
            args.append("out.html")
        ctx.stats.saw("input", cmd, kind, suffix, out)
        ctx.stats.hit("input:" + kind)
        r = self.tool(d, args)
        self.sound(ctx, r, f"{args} with a {kind} input")
        if r.rc == 0:
            ctx.fail(f"{args} with a {kind} input succeeds", output=r.out.decode("latin-1"))
        if os.path.basename(name)[:20].encode() not in r.out + r.err:
            ctx.fail(f"{args} with a {kind} input: the message does not name the file",
                     output=(r.out + r.err).decode("latin-1"))
        if out and open(os.path.join(d, "out.html")).read() != "before":
            ctx.fail(f"{args} fails but changes the output file")

    # ------------------------------------------------------------------ BMS
    def source(self, ctx, rng, d, fault):
        src = padded(rng, program(rng))
        data = src.encode("latin-1")
        name = rng.choice(["in.bms", "a b.bms", ".bms", "x.bmd.bms", "ü.bms"])
        self.write(d, name, src)
        cmd = rng.choice(["dump_tokens", "dump_ast", "verify", "verify", "generate", "generate", "html"])
        args = [cmd, name]
        lang = None
        if cmd == "generate":
            lang = rng.choice(["bms", "c", "cpp", "c", "cpp", "bms", "rust", "java", "kotlin", "javascript", "typescript"])
            args.append(lang)
        if cmd != "generate" and cmd != "html" and rng.random() < .1:
            args.append("surplus")
        ctx.stats.saw(cmd, lang, src, fault)
        want, body = self.expected(ctx, cmd, lang, src)
        if fault:
            return self.full(ctx, rng, d, args, want, body, src)
        r = self.tool(d, args)
        self.sound(ctx, r, " ".join(args), source=src)
        ctx.stats.hit(f"{cmd}:{'success' if want else 'failure'}")
        if (r.rc == 0) != want:
            ctx.fail(f"{' '.join(args)} exits with {r.rc}, but it {'can' if want else 'cannot'} be done", source=src,
                     output=(r.out + r.err).decode("latin-1")[:1500])
        plain = ANSI.sub(b"", r.out)
        if want:
            if body is not None and (plain if cmd != "dump_tokens" else r.out) != body:
                ctx.fail(f"{' '.join(args)} prints something else", source=src, output=plain.decode("latin-1")[:3000],
                         expected=body.decode("latin-1")[:3000])
            if r.err:
                ctx.fail(f"{' '.join(args)} succeeds but complains", source=src, output=r.err.decode("latin-1"))
        else:
            if not (plain + r.err).strip():
                ctx.fail(f"{' '.join(args)} fails silently", source=src)
            if cmd == "verify" and b"passed" in plain:
                ctx.fail(f"{' '.join(args)} fails but says that it passed", source=src)
            if cmd in ("verify", "dump_ast", "dump_tokens") and b".bms" not in plain + r.err:
                ctx.fail(f"{' '.join(args)}: the message does not name the file", source=src,
                         output=plain.decode("latin-1")[:500])
        if sorted(os.listdir(os.fsencode(d))) != [os.fsencode(name)] or open(os.path.join(d, name), "rb").read() != data:
            ctx.fail(f"{' '.join(args)} changes files", source=src, files=os.listdir(d))

    def expected(self, ctx, cmd, lang, src):
        """(whether the command can succeed, the plain text it then prints or None)"""
        tokens, err = ref_lex.lex(src)
        if cmd == "html":
            return False, None
        if err is not None:
            return False, None
        if cmd == "dump_tokens":
            return True, self.tokens(src, tokens)
        try:
            ref_parse.parse(src)
        except ref_parse.ParseError:
            return False, None
        except RecursionError:
            g = self.library(ctx, "bms", src, "p")
            return g["stage"] != "parse", None
        if cmd == "dump_ast":
            return True, ANSI.sub(b"", self.library(ctx, "bms", src, "p")["printed"].encode("latin-1"))
        g = self.library(ctx, "bms", src, "v" + (":g" + LANGS[lang] + "0" if lang else ""))
        plain, _ = S.reference(src)
        ok = plain.consts is not None if plain is not None else g["stage"] == "ok"
        if not ok:
            return False, None
        if cmd == "verify":
            return True, b"All checks passed.\n"
        if g["stage"] != "ok":
            ctx.fail("an acceptable program is rejected", source=src)
        if not g["gen"]["ok"]:
            return False, None
        return True, g["gen"]["text"].encode("latin-1")

    def tokens(self, src, tokens):
        out = []
        for t in tokens:
            s = f"{t.line + 1:>2}:{t.column + 1:>2}: {t.type}"
            if t.type not in ref_lex.SPELLING:
                s += f"({src[t.begin:t.begin + t.length]})"
                if t.length > 1:
                    s += f" ({t.length} characters)"
            out.append(s + "\n")
        return "".join(out).encode("latin-1")

    # ------------------------------------------------------------------ BMD
    def document(self, ctx, rng, d, fault):
        src = gen_bmd.make(rng, rng.randrange(12))
        if rng.random() < .06:                 # of a size around a multiple of 4096
            n = 4096 * rng.choice([1, 2, 3, 8, 300 if rng.random() < .1 else 2]) + rng.choice([-1, 0, 1, 1]) - len(src)
            if n > 2:
                src = src + "\n\n" + ("word " * (n // 5 + 1))[:n - 2]
        name = rng.choice(["in.bmd", "a b.bmd", ".bmd", "x.bms.bmd"])
        self.write(d, name, src)
        g = self.library(ctx, "bmd", src, "hHp")
        cmd = rng.choice(["html", "html", "html", "dump_ast"])
        args = [cmd, name]
        ctx.stats.saw(cmd, src, fault)
        if cmd == "dump_ast":
            want = g["stage"] != "parse"
            body = ANSI.sub(b"", g.get("printed", "").encode("latin-1"))
        else:
            want = g["stage"] == "ok"
            body = ANSI.sub(b"", g.get("colored", "").encode("latin-1"))
        if fault and rng.random() < .4:
            return self.full(ctx, rng, d, args, want, body, src)
        out = None
        if cmd == "html" and rng.random() < .65:
            kinds = ["new", "existing", "absolute"]
            if fault:
                kinds = ["directory", "missing directory", "full", "limit", "through a file", "empty name"]
            kind = rng.choice(kinds)
            out = {"missing directory": "no/out.html", "full": "/dev/full", "through a file": "file/out.html",
                   "empty name": "", "absolute": os.path.join(d, "out.html")}.get(kind, "out.html")
            if kind == "existing":
                self.write(d, "out.html", "before" * 1000)
            elif kind == "directory":
                os.mkdir(os.path.join(d, "out.html"))
            elif kind == "through a file":
                self.write(d, "file", "x")
            args.append(out)
            good = kind in ("new", "existing", "absolute")
            html = g.get("html", "").encode("latin-1")
            limit = rng.randrange(max(1, len(html))) if kind == "limit" else None
            r = self.tool(d, args, limit=limit)
            self.sound(ctx, r, f"{args} ({kind})", source=src)
            ctx.stats.hit(f"html to {kind}:{'valid' if want else 'invalid'}")
            path = os.path.join(d, "out.html")
            if (r.rc == 0) != (want and good):
                ctx.fail(f"{args} ({kind}) exits with {r.rc}, but it {'can' if want and good else 'cannot'} be done",
                         source=src, output=(r.out + r.err).decode("latin-1")[:1500])
            if r.rc == 0:
                if open(path, "rb").read() != html:
                    ctx.fail(f"{args} ({kind}) succeeds with another output", source=src,
                             got=open(path, "rb").read().decode("latin-1")[:2000], expected=html.decode("latin-1")[:2000])
                if r.out or r.err:
                    ctx.fail(f"{args} ({kind}) prints although it writes to a file", output=r.out.decode("latin-1"))
            else:
                if not (r.out + r.err).strip():
                    ctx.fail(f"{args} ({kind}) fails silently", source=src)
                if good:
                    now = open(path, "rb").read() if os.path.exists(path) else None
                    if now != (b"before" * 1000 if kind == "existing" else None):
                        ctx.fail(f"{args} ({kind}) fails but writes output", source=src, got=repr(now)[:600])
            return
        r = self.tool(d, args)
        self.sound(ctx, r, " ".join(args), source=src)
        ctx.stats.hit(f"{cmd} bmd:{'success' if want else 'failure'}")
        if (r.rc == 0) != want:
            ctx.fail(f"{args} exits with {r.rc}, but it {'can' if want else 'cannot'} be done", source=src,
                     output=(r.out + r.err).decode("latin-1")[:1500])
        plain = ANSI.sub(b"", r.out)
        if want and plain != body:
            ctx.fail(f"{args} prints something else", source=src, output=plain.decode("latin-1")[:3000],
                     expected=body.decode("latin-1")[:3000])
        if not want:
            if not (r.out + r.err).strip():
                ctx.fail(f"{args} fails silently", source=src)
            if cmd == "html" and b"<html" in plain.split(b"\n", 2)[0] + b"":
                ctx.fail(f"{args} prints incomplete output before failing", source=src, output=plain.decode("latin-1")[:600])

    # ------------------------------------------------------------------ standard output
    def full(self, ctx, rng, d, args, want, body, src):
        """Standard output that takes nothing: no success, unless there was nothing to print."""
        kind = rng.choice(["full", "closed", "limit"])
        if kind == "full":
            with open("/dev/full", "wb") as f:
                r = self.tool(d, args, stdout=f)
        elif kind == "closed":
            r = self.tool(d, args, closed=True)
        else:
            with open(os.path.join(d, "stdout"), "wb") as f:
                r = self.tool(d, args, stdout=f, limit=0)
        ctx.stats.hit(f"stdout {kind}:{'success' if want and not body else 'failure'}")
        self.sound(ctx, r, f"{args} with {kind} standard output", source=src)
        if r.rc == 0 and body != b"":
            ctx.fail(f"{args} succeeds although standard output is {kind}", source=src)
        if r.rc != 0 and want and body and not r.err.strip():
            ctx.fail(f"{args} with {kind} standard output fails silently", source=src)

    def finish(self, stats):
        need = [f"usage:{k}" for k in range(7)]
        need += [f"{c}:{x}" for c in ("dump_tokens", "dump_ast", "verify", "generate") for x in ("success", "failure")]
        need += ["html:failure", "html bmd:success", "html bmd:failure", "dump_ast bmd:success", "dump_ast bmd:failure"]
        need += [f"html to {k}:{x}" for k in ("new", "existing", "absolute", "directory", "missing directory", "full",
                                             "limit", "through a file", "empty name") for x in ("valid", "invalid")]
        need += [f"stdout {k}:failure" for k in ("full", "closed", "limit")]
        need += ["input:" + k for k in ("missing", "missing directory", "directory", "dangling", "loop", "through a file",
                                        "read error", "unsearchable name")]
        return [f"never observed: {k}" for k in need if not stats.cover[k]]


CHECK = C22()
