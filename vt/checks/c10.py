"""C10: the virtual machine executes its instructions as they are documented."""
import re

from .. import ref_sema as R
from ..core import Check, problem_of
from .c11 import BINARY, UNARY, letter, raw, short, some_type, some_value

COMPARE = {"equals", "not_equals", "less_than", "greater_than", "less_or_equal", "greater_or_equal"}


class Stop(Exception):
    """The model has no opinion on what follows."""


class Failed(Exception):
    def __init__(self, code, detail=None):
        self.code, self.detail = code, detail


class Machine:
    """The documented meaning of the instructions."""

    def __init__(self):
        self.code, self.stack, self.frames, self.pc, self.fed = [], [], [({}, None)], 0, None

    def reset(self):
        self.stack, self.frames, self.pc, self.fed = [], [({}, None)], 0, None

    def pop(self):
        if not self.stack:
            raise Failed("pop")
        return self.stack.pop()

    def target(self, t):
        if not 0 <= t < len(self.code):
            raise Failed("jump_out_of_program")
        return t

    def evaluated(self, f):
        try:
            return f()
        except R.SemaError:
            raise Failed("evaluation", "type_error")
        except R.EvalError as e:
            raise Failed("evaluation", e.detail)

    def cycle(self):
        """Executes one instruction; raises Failed, or Stop where its meaning is open."""
        ins = self.code[self.pc]
        k, fed, self.fed = ins[0], self.fed, None
        nxt = self.pc + 1
        if k == "l":
            v = self.frames[-1][0].get(ins[1])
            if v is None:
                raise Failed("load_uninitialized")
            self.stack.append(v)
        elif k == "s":
            self.frames[-1][0][ins[1]] = self.pop()
        elif k == "f":
            self.frames[-1][0].pop(ins[1], None)
        elif k == "p":
            self.stack.append(ins[1])
        elif k == "o":
            self.pop()
        elif k == "j":
            nxt = self.target(self.pc + ins[1] + 1)
            if nxt == self.pc:
                raise Failed("infinite_loop")
        elif k == "i":
            t, v = self.pop()
            if t != R.BOOL:
                raise Failed("jump_if_not_bool")
            if bool(v) == ins[2]:
                nxt = self.target(self.pc + ins[1] + 1)
        elif k in "bc":
            raise Failed("symbolic_jump")
        elif k == "r":
            if len(self.frames) == 1:
                raise Failed("pop_call")
            nxt = self.frames.pop()[1]
        elif k == "v":
            t, v = self.pop()
            self.stack.append((ins[1], self.evaluated(lambda: R.convert(v, t, ins[1]))))
        elif k == "u":
            t, v = self.pop()
            if ins[1] not in UNARY:
                raise Failed("evaluation", "type_error")
            self.stack.append(self.evaluated(
                lambda: (R.unary_type(short(ins[1]), t), R.unary_value(short(ins[1]), t, v))))
        elif k == "x":
            if len(self.stack) < 2:
                raise Failed("pop")
            b, a = self.pop(), self.pop()
            if ins[1] not in BINARY:
                raise Failed("evaluation", "type_error")
            self.stack.append(self.evaluated(lambda: (
                R.binary_type(a[0], short(ins[1]), b[0]), R.binary_value(*a, short(ins[1]), *b))))
            self.fed = (a, b, ins[1])
        elif k == "k":
            if ins[1] >= len(self.code):
                raise Failed("call_out_of_program")
            self.frames.append(({}, self.pc + 1))
            nxt = ins[1]
        elif k == "a":
            if not self.stack:
                raise Failed("pop")
            t, v = self.stack[-1]
            self.fed = fed
            if t != R.BOOL:
                raise Failed("evaluation", "type_error")
            if not v:
                raise Failed("evaluation", "assertion_fail")
            self.fed = None
            self.stack[-1] = (R.VOID, 0)
        if nxt == self.pc:
            raise Stop
        self.pc = nxt


class Writer:
    """Writes a program while the model executes it."""

    def __init__(self, rng):
        self.rng = rng
        self.m = Machine()
        large = rng.random() < .01
        self.n = rng.choice([1, 2, 5, 12, 30, 60]) if not large else rng.choice([200, 500])
        self.m.code = [None] * self.n
        self.hostile = rng.choice([0, .02, .02, .1, .4])
        self.vars = rng.choice([1, 3, 8]) if not large else rng.choice([8, 100, 300])
        self.depth = rng.choice([2, 6]) if not large else rng.choice([2, 60, 300])
        if large:
            self.hostile = rng.choice([0, .002])
        self.large = large

    def value(self):
        t = some_type(self.rng)
        if t == R.VOID and self.rng.random() < .8:
            t = R.INT
        if self.m.stack and self.rng.random() < .5:
            t = self.m.stack[-1][0]
        return t, some_value(self.rng, t)

    def offset(self, at):
        r = self.rng
        if r.random() < self.hostile:
            return r.choice([-at - 1, -at - 2, self.n - at - 1, self.n - at - 2, self.n - at, -1, -10**6, 10**9, -2**62])
        holes = [k for k, x in enumerate(self.m.code) if x is None and k != at]
        if holes and r.random() < .8:
            return r.choice(holes) - at - 1
        return r.randrange(self.n) - at - 1

    def some(self, at):
        """Any instruction."""
        r = self.rng
        k = r.choice("lsfpojibcrvuxkapxxppls")
        return self.made(k, at)

    def made(self, k, at):
        r = self.rng
        if k in "lsf":
            return k, r.randrange(self.vars)
        if k == "p":
            return k, self.value()
        if k == "j":
            return k, self.offset(at)
        if k == "i":
            return k, self.offset(at), r.random() < .5
        if k == "v":
            t = R.uint(r.choice([1, 8, 64, 127, 128])) if r.random() < .7 else some_type(r)
            return k, t
        if k == "u":
            return k, r.choice(UNARY)
        if k == "x":
            return k, r.choice(BINARY)
        if k == "k" and self.large and self.rng.random() < .7 and at + 1 < self.n:
            return k, at + 1
        if k == "k":
            return k, (r.choice([self.n, self.n + 1, 10**9]) if r.random() < self.hostile else
                       r.choice([x for x, c in enumerate(self.m.code) if c is None] or [0]))
        return (k,)

    def fitting(self, at):
        """An instruction that the state allows, mostly."""
        r, m = self.rng, self.m
        if r.random() < self.hostile:
            return self.some(at)
        if len(m.frames) > 1 and m.frames[-2][0] and r.random() < (.02 if not self.large else .005):
            return "l", r.choice(sorted(m.frames[-2][0]))    # likely one of the caller only
        if self.large and r.random() < (.9 if self.depth == 2 and (m.frames[-1][0] or m.frames[0][0]) else .4):
            return r.choice([("p", self.value()), ("p", self.value()),
                             *[self.made("s" if m.stack else "p", at)] * 3,
                             self.made("k" if len(m.frames) < self.depth else "p", at)])
        opts = ["p", "p", "j"]
        if m.frames[-1][0]:
            opts += ["L", "L", "F"]
        if len(m.frames) < self.depth:
            opts += ["k"]
        if len(m.frames) > 1:
            opts += ["r", "r"]
        if m.stack:
            opts += ["s", "s", "o", "u"]
            t = m.stack[-1][0]
            if t == R.INT:
                opts += ["V"]
            if t == R.BOOL:
                opts += ["i", "i", "a"]
        if len(m.stack) > 1:
            opts += ["X", "X", "X"]
        k = r.choice(opts)
        if k in "LF":
            return k.lower(), r.choice(sorted(m.frames[-1][0]))
        if k == "u":
            t = m.stack[-1][0]
            fit = [o for o in UNARY if self.accepts(lambda: R.unary_type(short(o), t))]
            return ("u", r.choice(fit)) if fit else ("o",)
        if k == "X":
            a, b = m.stack[-2][0], m.stack[-1][0]
            fit = [o for o in BINARY if self.accepts(lambda: R.binary_type(a, short(o), b))]
            cmp = [o for o in fit if o in COMPARE]
            return ("x", r.choice(cmp if cmp and r.random() < .5 else fit)) if fit else ("o",)
        return self.made(k.lower(), at)

    @staticmethod
    def accepts(f):
        try:
            f()
            return True
        except R.SemaError:
            return False

    def prepare(self):
        """Fills the place that is about to be executed, and the one after a comparison."""
        m = self.m
        if m.code[m.pc] is None:
            for _ in range(8 if self.large else 1):    # long programs should not fail early
                m.code[m.pc] = self.fitting(m.pc)
                if not self.large or not self.fails(m.code[m.pc]):
                    break
        if m.code[m.pc][0] == "x" and not self.large and m.pc + 1 < self.n and m.code[m.pc + 1] is None:
            m.code[m.pc + 1] = ("a",) if self.rng.random() < .3 else self.some(m.pc + 1)

    def fails(self, ins):
        t = [x for x in self.m.stack[-2:]]
        try:
            if ins[0] == "x":
                R.binary_value(*t[0], short(ins[1]), *t[1])
            elif ins[0] == "u":
                R.unary_value(short(ins[1]), *t[-1])
            elif ins[0] == "v":
                R.convert(t[-1][1], t[-1][0], ins[1])
            elif ins[0] == "a":
                return not t[-1][1]
            elif ins[0] == "r":
                back = self.m.frames[-1][1]
                return back is not None and self.m.code[back % self.n] is not None
            elif ins[0] in "ij":
                return self.m.code[(self.m.pc + 1 + ins[1]) % self.n] is not None
        except (R.EvalError, R.SemaError, IndexError, TypeError):
            return True                                # not even well typed
        return False

    def fill(self):
        for k in range(self.n):
            if self.m.code[k] is None:
                self.m.code[k] = self.some(k)


def fields(number, ins):
    f = ["", str(number), ins[0]]
    for x in ins[1:]:
        if isinstance(x, bool):
            f.append(str(int(x)))
        elif isinstance(x, tuple) and isinstance(x[0], tuple):
            f += [letter(x[0]), str(raw(*x))]
        elif isinstance(x, tuple):
            f.append(letter(x))
        else:
            f.append(str(x))
    return f


class C10(Check):
    id = "C10"
    targets = ("core",)
    rule = ("random instruction sequences, written while a model executes them (well-formed and hostile: empty "
            "stacks, missing frames, targets outside the program, symbolic jumps, ill-typed operands), loaded in "
            "groups, run several times from random addresses with random operands, with resets between; distinct by "
            "script; oracle: the model's operand stack size after every cycle, the whole stack after every run, the "
            "error's code, instruction and compared operands; the dump's lines")

    def cases(self, tier):
        return 400000 if tier == "quick" else 10000000

    def case(self, ctx, i):
        rng = ctx.rng
        w = Writer(rng)
        m = w.m
        runs = []                                     # (pushes, start, steps, result, stack or None)
        for run in range(rng.choice([1, 1, 2, 4])):
            m.reset()
            pushes = [w.value() for _ in range(rng.choice([0, 0, 1, 3]))]
            m.stack += pushes
            m.pc = start = 0 if run == 0 or rng.random() < .5 else rng.randrange(w.n)
            steps, error, stack = [], None, None
            limit = rng.choice([5, 40, 150]) if not w.large else 700
            while len(steps) < limit and m.pc < w.n:
                w.prepare()
                at = m.pc
                before = len(m.stack)
                try:
                    m.cycle()
                except Failed as e:
                    error = (at, e.code, e.detail, m.fed if e.code == "evaluation" and m.code[at][0] == "a" else None)
                    steps.append(None)
                    break
                except Stop:
                    break
                steps.append(len(m.stack))
                ctx.stats.hit("ran:" + m.code[at][0])
            else:
                stack = m.stack[::-1]
            if error:
                ctx.stats.hit("error:" + (error[2] or error[1]))
            w.fill() if run == 0 else None
            runs.append((pushes, start, steps, error, stack))
        script, wanted = [], []
        self.load(rng, m.code, script, wanted)
        if rng.random() < .1:
            script.append(["D"])
            wanted.append(("dump", m.code))
        for k, (pushes, start, steps, error, stack) in enumerate(runs):
            if k:
                script.append(["R"])
                if rng.random() < .1:
                    script[-1] = ["C"]
                    self.load(rng, m.code, script, wanted)
            script += [["P", letter(v[0]), str(raw(*v))] for v in pushes]
            if start or rng.random() < .2:
                script.append(["J", str(start)])
            left = len(steps)
            at = 0
            while left:
                n = left if rng.random() < .7 else rng.randrange(1, left + 1)
                script.append(["S", str(n)])
                for s in steps[at:at + n]:
                    wanted.append(("step", s) if s is not None else ("error", error, m.code))
                left, at = left - n, at + n
            if stack is not None:
                script.append(["O"])
                wanted.append(("stack", [[letter(t), raw(t, v)] for t, v in stack]))
        text = "machine\n" + "".join("\t".join(o) + "\n" for o in script)
        r = ctx.ask("core", text.replace("#", "%23"), name="core")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", script=text)
        if r.get("unfreed"):
            ctx.fail("memory is not returned", script=text)
        got = r["result"]["ops"]
        ctx.stats["evaluations"] += len(wanted)
        ctx.stats.saw(text)
        if i % 5000 == 0:
            ctx.stats.sample({"script": text[:400], "answers": got[:6]})
        for k, (a, b) in enumerate(zip(wanted, got)):
            what = self.differs(a, b)
            if what:
                ctx.fail(f"answer {k}: {what}", script=text, got=b)
        if len(got) != len(wanted):
            ctx.fail(f"there are {len(got)} answers and not {len(wanted)}", script=text, got=got[-1:])

    @staticmethod
    def load(rng, code, script, wanted):
        at = 0
        while at < len(code):
            if rng.random() < .3:
                script.append(["A"] + fields(at, code[at])[1:])
                at += 1
                continue
            n = rng.randrange(1, len(code) - at + 1)
            script.append(["I", str(n)])
            wanted.append(("number", at))
            script += [fields(k, code[k]) for k in range(at, at + n)]
            at += n
        if rng.random() < .3:
            script.append(["N"])
            wanted.append(("number", len(code)))

    def differs(self, want, got):
        kind = want[0]
        if kind == "number":
            return None if got == want[1] else f"{got} is not {want[1]}"
        if kind == "stack":
            return None if got == want[1] else f"the operands left are not {want[1]}"
        if kind == "dump":
            return self.dump(want[1], got)
        if kind == "step":
            return None if got == [want[1]] else f"the cycle does not succeed with {want[1]} operands"
        at, code, detail, fed = want[1]
        name = f"the cycle does not fail with {detail or code} at {at}"
        if len(got) < 6 or got[1] != code or got[2] != detail:
            return name
        if got[3] != f"#{at}" or got[4] != at % 20 or got[5] != at:
            return "the error does not carry the debug info of its instruction"
        if detail == "type_error" or fed and fed[2] not in COMPARE:
            return None
        compared = [] if not fed else [[letter(fed[0][0]), raw(*fed[0])], [letter(fed[1][0]), raw(*fed[1])], fed[2]]
        return None if got[6:] == compared else f"the compared operands are not {compared}"

    @staticmethod
    def dump(code, got):
        lines = got.split("\n")
        if lines.pop() != "" or len(lines) != len(code):
            return "the dump does not have a line for each instruction"
        for k, (ins, line) in enumerate(zip(code, lines)):
            words = re.sub(r" ;.*", "", line).split()
            if ins[0] in "lsf":
                need = [f"@{ins[1]}"]
            elif ins[0] == "p":
                t, v = ins[1]
                need = ["Void" if t == R.VOID else ["false", "true"][int(v)] if t == R.BOOL else str(v)]
            elif ins[0] in "ji":
                need = [f"{ins[1]:+d}"] + ([["false", "true"][ins[2]]] if ins[0] == "i" else [])
            elif ins[0] == "k":
                need = [str(ins[1])]
            elif ins[0] == "v":
                need = [R.type_name(ins[1])]
            elif ins[0] in "ux":
                need = []
            else:
                need = []
            if not words or not all(n in words for n in need):
                return f"line {k} of the dump is {line!r} and lacks one of {need}"
        return None

    def finish(self, stats):
        out = [f"no instruction {k} ran" for k in "lsfpojirvuxka" if not stats.cover["ran:" + k]]
        for e in ("load_uninitialized", "pop", "pop_call", "jump_out_of_program", "jump_if_not_bool", "symbolic_jump",
                  "call_out_of_program", "infinite_loop", "type_error", "division_by_zero", "assertion_fail"):
            if not stats.cover["error:" + e]:
                out.append(f"no error {e}")
        return out


CHECK = C10()
