"""Infrastructure shared by the checks: the probe client, the worker pool, findings, evidence."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import random
import re
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as B

VERIF = B.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:"
                    "strict_string_checks=1:hard_rss_limit_mb=2500:detect_invalid_pointer_pairs=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}


class HarnessError(Exception):
    """Something about the check itself failed: never reported as a violation."""


class Probe:
    """One instrumented process.  request() never raises for what the code under test does."""

    def __init__(self, path, env=None):
        self.path = path
        self.env = dict(os.environ, **SAN_ENV, **(env or {}))
        self.proc = None
        self.count = 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.proc = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.err, env=self.env, cwd="/")
        self.count = 0

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            try:
                self.proc.wait(timeout=20)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
            self.proc.stdout.close()
            self.err.close()
            self.proc = None

    def _stderr(self):
        self.err.seek(0)
        return self.err.read().decode("latin-1")

    def _death(self, wall=False):
        try:
            if wall:
                self.proc.kill()
            rc = self.proc.wait(timeout=60)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            rc = self.proc.wait()
        text = self._stderr()
        self.proc.stdout.close()
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        self.err.close()
        self.proc = None
        if "PROBE-PROTOCOL-ERROR" in text or rc in (96, 127, 126):
            raise HarnessError("probe protocol error: " + text[-500:])
        if rc == -9 and not wall:
            raise HarnessError("probe was killed (SIGKILL), presumably out of memory")
        if wall or "PROBE-CPU-LIMIT" in text or rc == 97:
            return {"problem": {"kind": "hang", "what": "no answer within the CPU limit"}}
        return {"problem": {"kind": "crash", "what": crash_summary(text, rc)}}

    def _read(self, n, deadline):
        fd = self.proc.stdout.fileno()
        out = b""
        while len(out) < n:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            got = os.read(fd, n - len(out))
            if not got:
                return out
            out += got
        return out

    def request(self, mode, data, flags="-", cpu=10):
        if isinstance(data, str):
            data = data.encode("latin-1")
        if self.proc is None:
            self.start()
        self.count += 1
        head = f"{mode} {len(data)} {cpu} {flags}\n".encode()
        # wall-clock backstop only: generous, since the machine may be loaded
        deadline = time.time() + cpu * 20 + 60
        try:
            self.proc.stdin.write(head + data)
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            return self._death()
        line = b""
        while not line.endswith(b"\n"):
            c = self._read(1, deadline)
            if c is None:
                return self._death(wall=True)
            if c == b"":
                return self._death()
            line += c
        body = self._read(int(line), deadline)
        if body is None:
            return self._death(wall=True)
        if len(body) != int(line):
            return self._death()
        return json.loads(body.decode("ascii"))


def crash_summary(text, rc):
    keep = []
    for line in text.splitlines():
        if re.search(r"ERROR: AddressSanitizer|runtime error:|SUMMARY:|rss limit|terminate called|"
                     r"Assertion .* failed|LeakSanitizer", line):
            line = re.sub(r"==\d+==", "", line)
            line = re.sub(r"0x[0-9a-f]+", "ADDR", line)
            keep.append(line.strip())
    frames = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()", text)
              if "bit_manipulation" in f]
    return " | ".join(keep[:3]) + (f" | at {frames[0]}" if frames else "") + f" (exit {rc})"


def problem_of(reply):
    """The problem of a reply (crash, hang, failed internal assertion, exception), or None."""
    p = reply.get("problem")
    if p is not None:
        return p
    if reply.get("mismatch"):
        return {"kind": "alloc", "what": "memory returned that was not allocated that way"}
    return None


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """Lines 'KNOWN property=<id> match=<regex> :: <description>' of the committed file."""
    out = []
    path = os.path.join(VERIF, "known_findings")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------ running

class Stats(collections.Counter):
    """Named counters plus a set of distinct observations (kept as hashes)."""

    def __init__(self):
        super().__init__()
        self.distinct = set()
        self.samples = []
        self.cover = collections.Counter()

    def saw(self, *key):
        """Registers one distinct non-trivial observation."""
        self.distinct.add(hash_of(key))

    def hit(self, name, n=1):
        """Feature coverage counter."""
        self.cover[name] += n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)


def hash_of(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


class Violation(Exception):
    def __init__(self, what, case):
        super().__init__(what)
        self.what = what
        self.case = case


class Ctx:
    """What a worker's case function gets: probe access, rng, stats, and the case log."""

    def __init__(self, paths, seed, tier):
        self.paths = paths
        self.seed = seed
        self.tier = tier
        self.stats = Stats()
        self.rng = None
        self.probes = {}
        self.case = None

    def probe(self, name="probe"):
        if name not in self.probes:
            self.probes[name] = Probe(self.paths[name])
        return self.probes[name]

    def ask(self, mode, data, flags="-", cpu=10, name="probe"):
        self.stats["probe_requests"] += 1
        r = self.probe(name).request(mode, data, flags, cpu)
        p = r.get("problem")
        if p is not None and p["kind"] in ("crash", "hang"):
            # confirm in a fresh process before anything is reported
            r2 = self.probe(name).request(mode, data, flags, cpu * 2)
            if r2.get("problem") is None:
                self.stats["unreproduced_problems"] += 1
                self.stats.sample({"unreproduced": p, "input": repr(data)[:300]})
                # a history-dependent problem: replay the same process history is not possible
                # here, so fall through with the clean answer
                return r2
            return r2
        return r

    def out_of_memory(self, mode, data, flags):
        """Runs the request again while its memory resource fails at some allocation."""
        flags += ":A100000000"
        n = self.probe().request(mode, data, flags, 10).get("allocs", 0)
        if n < 2:
            return
        k = self.rng.randrange(1, n)
        r = self.probe().request(mode, data, flags[:-9] + str(k), 10)
        p = r.get("problem") or {"kind": "no error", "what": ""}
        if "pool_resource::do_allocate" in p["what"] and p["kind"] == "crash":
            # libstdc++'s own pools do not survive that
            self.stats["out_of_memory_in_libstdcxx"] += 1
            return
        self.stats["out_of_memory"] += 1
        if p["kind"] != "bad_alloc":
            self.fail(f"the memory resource fails after {k} of {n} allocations: {p['kind']} {p['what']}", source=data,
                      flags=flags)
        if r.get("unfreed") or r.get("mismatch"):
            self.fail(f"the memory resource fails after {k} of {n} allocations: {r['unfreed']} bytes are not "
                      "returned, or not as they were allocated", source=data, flags=flags)

    def fail(self, what, **case):
        raise Violation(what, case)

    def close(self):
        for p in self.probes.values():
            p.stop()


def _worker(check, paths, seed, tier, indices, queue):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx(paths, seed, tier)
    viol = []
    slow = 0
    deadline = time.time() + check.budget(tier)
    try:
        for start, stop in indices:
            for i in range(start, stop):
                if time.time() > deadline or slow >= 2:
                    ctx.stats["cases_not_run_for_time"] += stop - i
                    break
                ctx.rng = random.Random(f"{check.id}/{seed}/{i}")
                ctx.index = i
                ctx.stats["cases"] += 1
                try:
                    check.case(ctx, i)
                except Violation as v:
                    viol.append((i, v.what, v.case))
                    slow += "no answer within" in v.what
                    if len(viol) >= 25:
                        break
            if len(viol) >= 25:
                break
        ctx.close()
        queue.put(("ok", json.loads(json.dumps(viol, default=repr)), dict(ctx.stats), ctx.stats.distinct, json.loads(json.dumps(ctx.stats.samples, default=repr)), dict(ctx.stats.cover)))
    except BaseException:
        try:
            ctx.close()
        except BaseException:
            pass
        queue.put(("error", traceback.format_exc()))


class Check:
    """A property's check.  Subclasses define id, targets, cases(tier), case(ctx, i), evidence."""
    id = None
    targets = ("probe",)
    level = "exploration"
    rule = ""
    jobs = int(os.environ.get("VT_JOBS", "8"))

    def cases(self, tier):
        return 200

    def budget(self, tier):
        """Seconds after which workers start no further case."""
        return 300 if tier == "quick" else 3000

    def prepare(self, ctx):
        pass

    def case(self, ctx, i):
        raise NotImplementedError

    def finish(self, stats):
        """Returns a list of complaints if the run did not observe enough to mean anything."""
        return []

    def replay(self, ctx, record):
        """Re-runs a recorded violation: by default the same case index and seed."""
        ctx.rng = random.Random(f"{self.id}/{record['seed']}/{record['index']}")
        ctx.index = record["index"]
        self.case(ctx, record["index"])

    # --------------------------------------------------------------
    def run(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        t0 = time.time()
        try:
            paths = B.build(self.targets)
        except B.BuildError as e:
            print(f"ERROR: {e}")
            return 3
        built = time.time() - t0
        self.paths = paths
        n = int(os.environ.get("VT_CASES", self.cases(tier)))
        jobs = min(self.jobs, max(1, n))
        # interleaved chunks so that every worker sees every kind of case
        chunk = max(1, min(50, n // (jobs * 4) or 1))
        pieces = [(a, min(n, a + chunk)) for a in range(0, n, chunk)]
        queue = mp.Queue()
        procs = []
        for w in range(jobs):
            p = mp.Process(target=_worker,
                           args=(self, paths, seed, tier, pieces[w::jobs], queue))
            p.start()
            procs.append(p)
        stats, viol, errors = Stats(), [], []
        pending = len(procs)
        while pending:
            try:
                msg = queue.get(timeout=5)
            except queue_mod.Empty:
                if not any(p.is_alive() for p in procs) and queue.empty():
                    errors.append("a worker died without reporting")
                    break
                continue
            pending -= 1
            if msg[0] == "error":
                errors.append(msg[1])
            else:
                viol += msg[1]
                stats.update(msg[2])
                stats.distinct |= msg[3]
                stats.samples += msg[4]
                stats.cover.update(msg[5])
        for p in procs:
            p.join(timeout=30)
            if p.is_alive():
                p.kill()
        viol.sort(key=lambda v: v[0])

        known = known_findings(self.id)
        fresh, seen_known = [], {}
        for v in viol:
            text = v[1] + " " + json.dumps(v[2], default=repr)
            for rx, desc in known:
                if rx.search(text):
                    seen_known[desc] = seen_known.get(desc, 0) + 1
                    break
            else:
                fresh.append(v)
        for _, desc in known:
            print(f"KNOWN-FINDING: property={self.id} {desc}")

        complaints = [] if fresh else self.finish(stats)
        self.write_evidence(tier, seed, stats, time.time() - t0, built, fresh, seen_known)
        rc = 0
        shown = set()
        for i, what, case in fresh:
            sig = re.sub(r"\d+", "#", what)[:80]
            if sig in shown:
                continue
            shown.add(sig)
            if len(shown) > 5:
                break
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.id}-{hash_of((i, what)):016x}.json")
            with open(path, "w") as f:
                json.dump({"property": self.id, "seed": seed, "index": i, "tier": tier,
                           "what": what, "case": case}, f, indent=1, default=repr)
            print(f"  {what[:1500]}")
            for k, x in case.items():
                print(f"    {k}: {x if isinstance(x, str) else json.dumps(x, default=repr)}"[:1500])
            print(f"VIOLATION property={self.id} replay={path}")
            rc = 1
        if rc == 0 and (errors or complaints):
            for e in errors + complaints:
                print("ERROR:", e)
            return 4
        for e in errors:
            print("note: harness error besides the violation:", e)
        print(f"{self.id}: {stats['cases']} cases, {len(stats.distinct)} distinct, "
              f"{stats['probe_requests']} probe requests, build {built:.1f}s, "
              f"total {time.time() - t0:.1f}s, violations {len(fresh)}, "
              f"known {sum(seen_known.values())}")
        return rc

    def write_evidence(self, tier, seed, stats, wall, built, fresh, seen_known):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        doc = {
            "property": self.id, "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed, "level": self.level,
            "coverage": {
                "evaluations": int(stats["evaluations"] or stats["cases"]),
                "distinct_nontrivial": len(stats.distinct),
                "rule": self.rule,
                "samples": (stats.samples or ["(none)"])[:8],
                "counters": {k: v for k, v in sorted(stats.items())},
                "features_observed": {k: v for k, v in sorted(stats.cover.items())},
            },
            "wall_s": round(wall, 2),
            "build_s": round(built, 2),
            "violations": len(fresh),
            "violation_texts": [v[1][:300] for v in fresh[:20]],
            "known_findings_seen": seen_known,
        }
        tmp = os.path.join(d, f".{self.id}.tmp")
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(d, f"{self.id}.json"))


def main(check):
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        paths = B.build(check.targets)
        check.paths = paths
        ctx = Ctx(paths, rec["seed"], rec["tier"])
        try:
            check.replay(ctx, rec)
        except Violation as v:
            print(v.what)
            for k, x in v.case.items():
                print(f"  {k}: {x}")
            print(f"VIOLATION property={check.id} "
                  f"replay={sys.argv[sys.argv.index('--replay') + 1]}")
            return 1
        finally:
            ctx.close()
        print("not reproduced")
        return 0
    return check.run()
