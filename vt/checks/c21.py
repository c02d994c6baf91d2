"""C21: parsed and analyzed programs are values that own their memory, can be searched and run."""
import re

from .. import gen_prog, ref_sema as R, sema_case as S
from ..core import Check, problem_of
from .c11 import letter, raw, some_value


class Source:
    def __init__(self, text):
        self.text = text
        self.want, self.program = S.reference(text)
        self.digest = {}                                # of the trees, by kind and file
        self.code = None                                # of the analysis

    def parses(self):
        return self.want.code not in ("lex", "parse")


def escaped(s):
    return "".join(f"%{ord(c):02x}" if c in "%\t\n\r\0" else c for c in s)


class C21(Check):
    id = "C21"
    targets = ("programs",)
    rule = ("random histories of parsing, constructing, analyzing, moving, move-assigning, searching, running and "
            "destroying up to four parsed and four analyzed programs of up to three generated sources, with memory "
            "from four resources; distinct by script; oracle: a model of the slots and the reference semantics; every "
            "answer, equal trees for equal sources, and all memory returned to the resource it came from")

    def cases(self, tier):
        return 20000 if tier == "quick" else 400000

    def sources(self, rng):
        out = []
        while not out or rng.random() < .5 and len(out) < 3:
            g = gen_prog.Gen(rng, generics=.2, risky=rng.choice([0, .2]), uninit=.05, static=.05, asserts=True,
                             missing_return=.05, depth=rng.choice([1, 2]), functions=rng.choice([1, 2, 3]))
            text = g.program()
            keep = text
            for _ in range(rng.choice([0, 1, 3])):      # a query that fails would end the analysis
                more = keep + (g.query() or "") + "\n"
                want, _ = S.reference(more)
                if want is not None and want.consts is not None:
                    keep = more
            text = keep
            if rng.random() < .3:                       # names that are long and alike
                before, after = rng.choice([("something_", ""), ("", "_of_the_program"), ("x" * 33, "y" * 33)])
                text = re.sub(r"\b([a-zA-Z]\d+)\b", before + r"\1" + after, text)
            if rng.random() < .1:
                text = text[:rng.randrange(len(text))] + rng.choice(["", "$", "(", "x"])
            if rng.random() < .2:
                text += rng.choice(["// \0 and more", "/* \0\t%\r\n */", "// \xfc"]) + "\n" + text[:0]
            s = Source(text)
            if s.want is not None and (s.want.code != "codegen_call_to_unanalyzed"):
                out.append(s)
        return out

    def case(self, ctx, i):
        rng = ctx.rng
        src = self.sources(rng)
        script = [["S", escaped(s.text)] for s in src]
        wanted = []
        parsed, analyzed = {}, {}                       # slot -> None (moved from) or a value
        fresh = iter(range(10**6))
        p_slots, a_slots = rng.choice([1, 2, 4]), rng.choice([1, 2, 4])

        def do(op, *want):
            script.append(op)
            wanted.extend((op, w) for w in want)

        for _ in range(rng.choice([6, 15, 40])):
            k = rng.random()
            pa, pb = (f"p{rng.randrange(p_slots)}" for _ in "ab")
            aa, ab = (f"a{rng.randrange(a_slots)}" for _ in "ab")
            mem = str(rng.randrange(4))
            if k < .15 or not parsed:
                s = rng.randrange(len(src))
                do(["P", pa, mem, str(s)], ("is", src[s].parses()), ("taken", mem))
                parsed.pop(pa, None)
                if src[s].parses():
                    parsed[pa] = (next(fresh), src[s])
            elif k < .3:
                if parsed.get(pb):
                    file = rng.choice(["", "a.bms", "a rather long name of a file.bms", "dir/b.bms"])
                    do(["A", aa, mem, pb, file], ("taken", mem))
                    analyzed[aa] = {"mem": mem, "src": parsed[pb][1], "of": parsed[pb][0], "file": file, "state": "new"}
            elif k < .42:
                new = [(a, p) for a, v in analyzed.items() if v and v["state"] == "new"
                       for p, w in parsed.items() if w and w[0] == v["of"]]
                if new:
                    a, p = rng.choice(new)
                    v = analyzed[a]
                    do(["R", a, p, mem], ("analysis", v["src"]), ("taken", mem + v["mem"]))
                    v["state"] = "ok" if v["src"].want.consts is not None else "bad"
            elif k < .52:
                slots, n, a, b = (parsed, "P", pa, pb) if rng.random() < .5 else (analyzed, "A", aa, ab)
                if slots.get(b) and a in slots and a != b:
                    do(["M" + n, a, b])
                    v, slots[b] = slots[b], None
                    slots[a] = v
                    ctx.stats.hit("assigned")
            elif k < .58:
                slots, n, a, b = (parsed, "P", pa, pb) if rng.random() < .5 else (analyzed, "A", aa, ab)
                if slots.get(b) and a != b:
                    do(["N" + n, a, b])
                    slots[a], slots[b] = slots[b], None
                    ctx.stats.hit("moved")
            elif k < .64:
                slots, n, a = (parsed, "P", pa) if rng.random() < .6 else (analyzed, "A", aa)
                if a in slots:
                    do(["D" + n, a])
                    del slots[a]
                    ctx.stats.hit("destroyed")
            elif k < .7:
                if parsed.get(pa):
                    do(["TP", pa], ("parsed tree", parsed[pa][1]))
                if analyzed.get(aa):
                    do(["TA", aa], ("tree", analyzed[aa]["src"], analyzed[aa]["file"]))
            elif analyzed.get(aa):
                v = analyzed[aa]
                s = v["src"]
                if k < .8 or v["state"] == "bad":
                    n = self.some_name(rng, s)
                    do(["F", aa, n], ("found", self.found(s, n)))
                    ctx.stats.hit("searched")
                else:
                    self.calls(ctx, rng, aa, v, do)
        text = "".join("\t".join(o) + "\n" for o in script)
        r = ctx.ask("core", text, name="programs")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", script=text)
        if r.get("unfreed") or r.get("mismatch"):
            ctx.fail("memory is not returned as it was allocated", script=text)
        got = r["result"]["ops"]
        memory = r["result"]["memory"]
        ctx.stats["evaluations"] += len(wanted)
        ctx.stats["allocations"] += sum(memory[2::3])
        ctx.stats.saw(text)
        if i % 500 == 0:
            ctx.stats.sample({"script": text[-400:], "answers": got[-4:], "memory": memory})
        for (op, want), g in zip(wanted, got):
            what = self.differs(want, g)
            if what:
                ctx.fail(f"{' '.join(op)}: {what}", script=text)
        if len(got) != len(wanted):
            ctx.fail(f"there are {len(got)} answers and not {len(wanted)}", script=text)
        for k in range(3):
            live, mismatches, _ = memory[3 * k:3 * k + 3]
            if live or mismatches:
                ctx.fail(f"resource {k} is left with {live} bytes, and {mismatches} blocks that are not its own",
                         script=text)

    def some_name(self, rng, s):
        names = [n.name for n in s.program.tree.kids if getattr(n, "name", None)]
        k = rng.random()
        if k < .7 and names:
            return rng.choice(names)
        return rng.choice((names or ["x"])) [:-1] + rng.choice(["", "0", "x"]) if k < .85 else \
            rng.choice(["assert", "p1", "v2", "v3", "i4", "c5", "", "let"])

    def found(self, s, name):
        for n in s.program.tree.kids:
            if n.kind in ("Const", "Function") and n.name == name:
                at = [n.kind, n.tok.begin]
                return [at, at if n.kind == "Function" else "wrong", at if n.kind == "Const" else "wrong", True]
        return ["nothing"] * 3 + [True]

    def calls(self, ctx, rng, slot, v, do):
        s = v["src"]
        fns = [n for n in s.program.tree.kids if n.kind == "Function"]
        if not fns:
            return
        if v["state"] == "new":
            n = rng.choice(fns)
            do(["X", slot, n.name], ("is", "no code"))
            return
        ready = [d.fn for d in s.program.decls if d.kind == "fn" and not d.fn.generic and d.fn.level == R.Fn.CONST]
        for _ in range(rng.choice([1, 1, 4])):
            if not ready:
                return
            f = rng.choice(ready)
            values = [(p.type, some_value(rng, p.type)) for p in f.params]
            s.program.steps = 20000
            try:
                want = ("value", f.ret, s.program.invoke(f, [x for _, x in values]))
                ctx.stats.hit("returned")
            except R.EvalError as e:
                want = ("error", e.detail)
                ctx.stats.hit("failed")
            except (R.Exhausted, RecursionError):
                continue
            do(["X", slot, f.node.name] + [y for t, x in values for y in (letter(t), str(raw(t, x)))], want)

    @staticmethod
    def differs(want, got):
        kind = want[0]
        if kind == "taken":
            return None if set(got) <= set(want[1]) else f"memory is taken from {got} and not {want[1]} only"
        if kind in ("is", "found"):
            return None if got == want[1] else f"the answer is {got} and not {want[1]}"
        if kind == "analysis":
            s = want[1]
            if (got is None) != (s.want.consts is not None):
                return f"the analysis gives {got} and not {s.want}"
            s.code = s.code or got
            return None if got == s.code else f"the analysis gives {got} and before it was {s.code}"
        if kind in ("tree", "parsed tree"):
            s, file = want[1], want[2:]
            if got[:-1] != [s.text, *file]:
                return "the source or the name of the file is another"
            first = s.digest.setdefault((kind, file), got[-1])
            return None if first == got[-1] else "the tree is not that of an equal program"
        if kind == "value":
            w = [letter(want[1]), raw(want[1], want[2]), 1]
            return None if got == w else f"the result is {got} and not {w}"
        ok = got[0] == want[1] or got[1] == want[1] if isinstance(got, list) and len(got) == 2 else False
        return None if ok else f"the result is {got} and not the error {want[1]}"

    def finish(self, stats):
        return [f"never {k}" for k in ("assigned", "moved", "destroyed", "searched", "returned", "failed")
                if not stats.cover[k]]


CHECK = C21()
