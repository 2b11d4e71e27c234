"""helper: make(id, prop, [(file, old, new)], demo_cc, needs, breaks)"""
import os, subprocess, json, textwrap
R = os.environ.get('SEED_REPO', '/repo')   # a clone at the same commit
SH = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken.  Run in the repository after its build.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++23 -g -w -DPLAIN_HAS_PTHREAD=1 -I"$R/framework/core/include" -I"$R/framework/core" "$D/demo.cc" \\
  -o "$T/demo" -L"$R/_build/bin" -lplaind -Wl,-rpath,"$R/_build/bin" -lpthread || exit 98
cd "$T" || exit 97
timeout -k 5 %d ./demo
'''
def make(id, prop, edits, demo, needs, breaks, tmo=120):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    subprocess.run(f"git -C {R} diff --quiet", shell=True, check=True)
    try:
        for f, o, n in edits:
            p = R + "/framework/core/" + f; s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run(f"git -C {R} diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(f"git -C {R} checkout -q -- .", shell=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(textwrap.dedent(demo).lstrip())
    open(d + "/demo.sh", "w").write(SH % tmo); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
