"""C13: frames of variables and tables of symbols are nested maps."""
from ..core import Check, problem_of
from .c11 import letter, raw, some_type, some_value

NAMES = ["a", "b", "x", "xy", "assert", "", "a_rather_long_name_that_is_not_short", "A"]


class C13(Check):
    id = "C13"
    targets = ("core",)
    rule = ("random scripts of calls to Linear_Map_Stack (find, emplace, assign, erase, push_frame, pop_frame, clear) "
            "and to trees of Symbol_Tables up to 8 deep (construction in every way, emplace with and without "
            "shadowing, find, moves); distinct by script; oracle: lists of Python dictionaries; every answer compared, "
            "and at the end every name in every table and key of every frame")

    def cases(self, tier):
        return 500000 if tier == "quick" else 10000000

    def case(self, ctx, i):
        rng = ctx.rng
        kind, script, wanted = self.frames(rng, i) if i % 2 else self.scopes(rng, i)
        text = kind + "\n" + "".join("\t".join(o) + "\n" for o in script)
        r = ctx.ask("core", text, name="core")
        p = problem_of(r)
        if p is not None:
            ctx.fail(f"{p['kind']}: {p['what']}", script=text)
        if r.get("unfreed"):
            ctx.fail("memory is not returned", script=text)
        got = r["result"]["ops"]
        ctx.stats["evaluations"] += len(wanted)
        ctx.stats.saw(text)
        ctx.stats.hit(kind)
        for k, ((op, want), g) in enumerate(zip(wanted, got)):
            if not any(g == x for x in want):
                ctx.fail(f"answer {k}: {' '.join(op)} gives {g} and not {want[0]}", script=text)
        if len(got) != len(wanted):
            ctx.fail(f"there are {len(got)} answers and not {len(wanted)}", script=text)

    # ------------------------------------------------------------------ Linear_Map_Stack
    def frames(self, rng, i):
        maps, sentinels = [{}], []
        script, wanted = [], []
        keys = rng.choice([1, 3, 8, 40]) if i % 40 > 1 else rng.choice([100, 500])
        growing = keys > 40                           # wide frames, many of them

        def val():
            t = some_type(rng)
            v = some_value(rng, t)
            return [letter(t), str(raw(t, v))], [letter(t), raw(t, v)]

        def op(o, *want):
            script.append(o)
            if want:
                wanted.append((o, want))

        def entry(k):
            return [k, maps[-1][k]] if k in maps[-1] else None

        def step():
            k = rng.randrange(keys)
            what = rng.choice("feeeeaaaad" + "p" * (rng.random() < .3)) if growing else rng.choice("ffeeaaaddppqc" if rng.random() < .3 else "ffeeaaaddppq")
            if what == "f":
                op(["f", str(k)], entry(k))
            elif what == "e":
                f, v = val()
                old = k not in maps[-1]
                maps[-1].setdefault(k, v)
                op(["e", str(k)] + f, [old, entry(k)])
            elif what == "a":
                f, v = val()
                maps[-1][k] = v
                op(["a", str(k)] + f, entry(k))
            elif what == "d":
                maps[-1].pop(k, None)
                op(["d", str(k)])
            elif what == "p":
                f, v = val()
                maps.append({})
                sentinels.append(v)
                op(["p", "0"] + f, [-1, v])
            elif what == "q":
                if sentinels:
                    maps.pop()
                op(["q"], sentinels.pop() if sentinels else None)
            else:
                maps[:] = [{}]
                sentinels.clear()
                op(["c"])
        for _ in range(rng.choice([200, 600]) if growing else rng.choice([3, 20, 80])):
            step()
        while True:
            for k in range(min(keys, 12)) if not growing or rng.random() < .9 else range(keys):
                op(["f", str(k)], entry(k))
            if not sentinels:
                break
            maps.pop()
            op(["q"], sentinels.pop())
        return "frames", script, wanted

    # ------------------------------------------------------------------ Symbol_Table
    def scopes(self, rng, i):
        tables = []                                   # (own names, parent)
        script, wanted = [], []

        def node():
            k = rng.random()
            return "b" if k < .1 else "p" + str(rng.randrange(64)) if k < .4 else str(rng.randrange(64))

        def find(t, n):
            while t is not None:
                if n in tables[t][0]:
                    return tables[t][0][n]
                t = tables[t][1]
            return None

        def new():
            if tables and rng.random() < .7:
                parent = rng.randrange(len(tables)) if rng.random() < .4 else len(tables) - 1
                tables.append(({}, parent))
                script.append(["t", str(parent)] + (["m"] if rng.random() < .3 else []))
            elif rng.random() < .5:
                n, h = rng.choice(NAMES), node()
                tables.append(({n: h}, None))
                script.append(["t", "init", n, h])
            else:
                tables.append(({}, None))
                script.append(["t"])

        def step():
            if len(tables) < most and rng.random() < .2:
                return new()
            t, n = rng.randrange(len(tables)), rng.choice(names)
            k = rng.random()
            if k < .5:
                op = ["f", str(t), n]
                script.append(op)
                wanted.append((op, [find(t, n)]))
            elif k < .95:
                shadow, h = rng.random() < .4, node()
                own, parent = tables[t]
                op = ["e", str(t), n, h, str(int(shadow))]
                script.append(op)
                outer = None if shadow or parent is None else find(parent, n)
                if outer is None and n not in own:
                    own[n] = h
                    wanted.append((op, [[True, n, h]]))
                else:
                    old = [x for x in (outer, own.get(n)) if x is not None]
                    wanted.append((op, [[False, x] for x in old]))
            else:
                script.append(["m", str(t)])
        most = 8 if i % 40 else 60
        names = rng.sample(NAMES, rng.choice([1, 3, 6])) + (
            [f"n{k}" for k in range(rng.choice([40, 200]))] if rng.random() < .05 else [])
        new()
        for _ in range(rng.choice([5, 30, 100]) if i % 40 else 300):
            step()
        for t in range(len(tables)):
            for n in names:
                op = ["f", str(t), n]
                script.append(op)
                wanted.append((op, [find(t, n)]))
        return "scopes", script, wanted

    def finish(self, stats):
        return [f"no {k}" for k in ("frames", "scopes") if not stats.cover[k]]


CHECK = C13()
