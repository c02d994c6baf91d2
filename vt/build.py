"""Builds instrumented binaries from /repo's current working tree (plus the probe).

Objects are cached by content hash (all of src/ headers + the translation unit + flags), so a
change in /repo always rebuilds what it affects.  Nothing is written outside /verif/.build.
"""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, ".build"))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-D_GLIBCXX_ASSERTIONS"]
BASE = ["-std=c++20", "-w", "-O1", "-g1"]


class BuildError(Exception):
    pass


def lib_sources():
    """Every library source below src/, whatever files the tree has (CLI and tests apart)."""
    out = []
    for top in ("bmd", "bms", "common"):
        for d, _, files in os.walk(os.path.join(REPO, "src", top)):
            out += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


def cli_sources(main=False):
    d = os.path.join(REPO, "src", "cli")
    return sorted(os.path.join(d, f) for f in os.listdir(d)
                  if f.endswith(".cpp") and (main or f != "main.cpp"))


def _headers_digest():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness")]
    files = []
    for root in roots:
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".ipp", ".inl"))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _compile(src, flags, hdr):
    with open(src, "rb") as f:
        key = hashlib.sha256((" ".join(flags) + src + hdr).encode() + f.read()).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.tmp"
        cmd = ["g++"] + flags + ["-I" + REPO, "-I" + os.path.join(REPO, "src"),
                                 "-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError(f"compiling {src} failed:\n{p.stderr[-4000:]}")
        os.replace(tmp, obj)
    return obj


def _link(objs, out, flags):
    key = hashlib.sha256((" ".join(objs) + " ".join(flags)).encode()).hexdigest()
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    tmp = f"{out}.{os.getpid()}.tmp"
    p = subprocess.run(["g++"] + flags + objs + ["-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(f"linking {out} failed:\n{p.stderr[-4000:]}")
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)


HARNESS = {
    "probe": ["probe_main.cpp", "probe_bms.cpp", "probe_bmd.cpp"],
}


def build(targets=("probe",)):
    """Builds the named binaries: probe, cli, or any harness/<name>.cpp unit harness."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    hdr = _headers_digest()
    flags = BASE + SAN
    plan = {}
    for t in targets:
        if t == "cli":
            plan[t] = lib_sources() + cli_sources(main=True)
        elif t == "probe":
            plan[t] = lib_sources() + cli_sources() + [
                os.path.join(VERIF, "harness", f) for f in HARNESS["probe"]]
        elif t == "lifetimes":
            plan[t] = [os.path.join(VERIF, "harness", "lifetimes.cpp"),
                       os.path.join(REPO, "src", "common", "assert.cpp")]
            plan[t] = [s for s in plan[t] if os.path.exists(s)]
        else:
            plan[t] = lib_sources() + [os.path.join(VERIF, "harness", t + ".cpp")]
    todo = sorted({s for v in plan.values() for s in v}, key=lambda s: -os.path.getsize(s))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        objs = dict(zip(todo, ex.map(lambda s: _compile(s, flags, hdr), todo)))
    paths = {}
    for t, srcs in plan.items():
        out = os.path.join(BUILD, t)
        _link([objs[s] for s in srcs], out, SAN)
        paths[t] = out
    return paths


if __name__ == "__main__":
    t0 = time.time()
    try:
        print(build(tuple(sys.argv[1:]) or ("probe", "cli")))
    except BuildError as e:
        print(e)
        sys.exit(3)
    print(f"{time.time() - t0:.1f}s")
