#!/usr/bin/env python3
"""Development tool for the planted changes (not used by any check).
  seedtool.py confirm ID...   in a scratch copy: builds, passes the stable tests, demo 0 without / nonzero with
  seedtool.py detect ID...    applies to /repo, runs the property's quick check, undoes it
"""
import json, os, subprocess, sys, shutil, time
SW = "/tmp/sw"; SEED = "/verif/seeded"

def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def build():
    r = sh(f"""cmake -S {SW}/cmake -B {SW}/_build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=Debug \
  -Ddependencies_gtest_dir=/usr/src/googletest/googletest -Dhas_output_path=1 -DCMAKE_RUNTIME_OUTPUT_DIRECTORY={SW}/_build/bin \
  -DLIBRARY_OUTPUT_PATH={SW}/_build/lib -Wno-deprecated && ninja -C {SW}/_build -j8""")
    return r.returncode == 0, r.stdout[-2000:]

def prep():
    if not os.path.isdir(SW):
        sh(f"git clone -q /repo {SW}")
    sh(f"cd {SW} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build")

def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable", base.get("passed", base)) if isinstance(base, dict) else base)
    t = open("/opt/vp/test.sh").read().replace("/repo/_build", SW + "/_build").replace("bash /opt/vp/build.sh", "true")
    open("/tmp/sw_test.sh", "w").write(t)
    sh("bash /tmp/sw_test.sh /tmp/sw_out.json")
    d = json.load(open("/tmp/sw_out.json"))
    return sorted(stable - set(d["passed"]))

def demo(i):
    d = f"/tmp/swdemo_{i}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(f"{SEED}/{i}", d)
    for f in ("patch.diff", "meta.json"): os.unlink(f"{d}/{f}")
    t = time.time()
    r = sh(f"cd {SW} && timeout 300 bash {d}/demo.sh")
    shutil.rmtree(d)
    return r.returncode, time.time() - t, r.stdout[-600:]

def confirm(ids):
    prep()
    print("build", build()[0], flush=True)
    for i in ids:
        rc, t, o = demo(i); print(f"{i}: clean demo rc={rc} {t:.1f}s", "" if rc == 0 else o, flush=True)
    for i in ids:
        prep()
        a = sh(f"cd {SW} && git apply {SEED}/{i}/patch.diff")
        if a.returncode: print(i, "does not apply", a.stdout); continue
        ok, o = build()
        if not ok: print(i, "build failed", o); continue
        rc, t, o = demo(i); print(f"{i}: patched demo rc={rc} {t:.1f}s {o.strip()[-160:]}", flush=True)
        if "--notest" not in sys.argv: print(f"{i}: stable tests failing: {tests()}", flush=True)
    prep()

def detect(ids):
    for i in ids:
        m = json.load(open(f"{SEED}/{i}/meta.json")); p = m["property"]
        a = sh(f"git -C /repo apply {SEED}/{i}/patch.diff")
        if a.returncode: print(i, "does not apply", a.stdout); continue
        t = time.time()
        try:
            r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py {p} quick")
        finally:
            sh("git -C /repo checkout -- .")
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "class" in l.lower()]
        print(f"{i}: {p} rc={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {v[:1] if v else r.stdout[-300:]}", flush=True)

ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(SEED))
{"confirm": confirm, "detect": detect}[sys.argv[1]](ids)
