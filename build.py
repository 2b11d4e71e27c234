#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree.

Objects are cached under /verif/build keyed by the preprocessed-independent
inputs (command line, source, and every header of /repo and /verif), so a changed
tree is always rebuilt and an unchanged one is not.
"""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CORE = os.path.join(REPO, "framework/core")

DEFS = ["-DPLAIN_BUILD_AS_DLL", "-DPLAIN_CREATE_SHARED_LIBRARY=1", "-DPLAIN_HAS_PTHREAD=1", "-DPLAIN_CORE"]
BASE = ["g++", "-std=gnu++23", "-w", "-g1", "-O1", "-fno-omit-frame-pointer", "-fexceptions",
        "-fno-pie", "-U_FORTIFY_SOURCE", "-I", os.path.join(OUT, "overlay"), "-I", os.path.join(CORE, "include"), "-I", CORE]
# Without the builtins a small memset is a call too, and seen like every other access.
INSTR = BASE + ["-fsanitize=thread", "-fno-builtin-memset", "-fno-builtin-memcpy", "-fno-builtin-memmove"]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def headers():
    hs = []
    for root in (os.path.join(CORE, "include"), os.path.join(CORE, "src")):
        for d, _, fs in os.walk(root):
            hs += [os.path.join(d, f) for f in fs if f.endswith((".h", ".tcc", ".hpp", ".inl", ".ipp"))]
    return hs


def overlay():
    """Tuning knob: the asynchronous logger's buffer (4 MiB) is made 16 KiB so that
    buffer hand-over happens within short runs.  Nothing else is changed."""
    rel = "plain/basic/constants.h"
    src = os.path.join(CORE, "include", rel)
    dst = os.path.join(OUT, "overlay", rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(src):
        if os.path.exists(dst):
            os.unlink(dst)
        return
    text = re.sub(r"(\bkLargeBufferSize)\s*(\{[^}]*\}|=[^;]*)", r"\1{16 * 1024}", open(src).read())
    if not os.path.exists(dst) or open(dst).read() != text:
        with open(dst, "w") as f:
            f.write(text)


def compile_one(job):
    src, cmd, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "%s:\n%s" % (src, r.stdout[-4000:])
    os.replace(tmp, obj)
    return None


def build(verbose=False):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    overlay()
    hh = tree_hash(headers())
    sh = tree_hash(glob.glob(os.path.join(VERIF, "sim/*.h")))
    ch = tree_hash(glob.glob(os.path.join(VERIF, "scen/*.h")))
    jobs, objs = [], []

    def add(src, cmd, salt):
        h = hashlib.sha256(("\0".join(cmd) + src + salt).encode())
        with open(src, "rb") as f:
            h.update(f.read())
        obj = os.path.join(OUT, "obj", os.path.basename(src).replace(".", "_") + "-" + h.hexdigest()[:20] + ".o")
        jobs.append((src, cmd, obj))
        objs.append(obj)

    for src in sorted(glob.glob(os.path.join(VERIF, "scen/*.cc"))):
        add(src, INSTR + DEFS, hh + sh + ch)
    for src in sorted(glob.glob(os.path.join(CORE, "src/**/*.cc"), recursive=True)):
        add(src, INSTR + DEFS, hh)
    for src in sorted(glob.glob(os.path.join(VERIF, "sim/*.cc"))):
        add(src, BASE, sh)
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(OUT, "simrun-" + key)
    if os.path.exists(exe):
        return exe
    # biggest sources first
    todo = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile_one, todo) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        raise SystemExit(2)
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-o", tmp] + objs +
                       ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread", "-Wl,-z,now"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(2)
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    print(build(True))
