"""C23: Variant and Result keep exactly one live, correct value."""
import json
import os
import re
import subprocess

from .. import core
from ..core import Check

STEPS = 60


class C23(Check):
    id = "C23"
    targets = ("lifetimes",)
    rule = ("one case = random operation sequences (construction, copy, move, assignment from values, other "
            "objects and itself, swapping of alternatives, visiting with one and two variants, get/get_if, "
            "throwing copies and moves) over Variant<1..25 alternatives> and Result of several shapes; "
            "alternatives count their live objects in a ledger; distinct by sequence (its seed); oracle: the ledger, "
            "a model of the held alternative and value after every operation, and ASan/UBSan")

    def cases(self, tier):
        return 160 if tier == "quick" else 6000

    def case(self, ctx, i):
        seed = (ctx.seed * 1000003 + i) & 0x7fffffff
        n = 1000 if ctx.tier == "quick" else 3000
        cmd = [ctx.paths["lifetimes"], str(seed), str(n), str(STEPS)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=240,
                               env=dict(os.environ, **core.SAN_ENV))
        except subprocess.TimeoutExpired:
            ctx.fail("no answer within the time limit", command=cmd[1:])
        ctx.stats["runs"] += 1
        m = re.search(r"^FAIL (.*)$", p.stdout, re.M)
        if m:
            ctx.fail(m.group(1), command=cmd[1:], output=p.stdout[-1500:])
        if p.returncode != 0:
            if p.returncode == -9:
                raise core.HarnessError("lifetimes was killed")
            ctx.fail("crash: " + core.crash_summary(p.stderr, p.returncode), command=cmd[1:])
        got = json.loads(p.stdout.strip().splitlines()[-1])
        if got["constructed"] != got["destroyed"]:
            ctx.fail("objects constructed and destroyed differ", command=cmd[1:], counters=got)
        ctx.stats["evaluations"] += n
        for k, v in got.items():
            ctx.stats.hit(k, v)
        for k in range(n):
            ctx.stats.saw(seed, k)
        if i % 50 == 0:
            ctx.stats.sample({"command": cmd[1:], "counters": got})

    def finish(self, stats):
        return [] if stats.cover["constructed"] > 10000 else ["too few objects were observed"]


CHECK = C23()
