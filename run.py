#!/usr/bin/env python3
"""run.py <property> quick|thorough   - decides one property by deterministic simulation.
   run.py --replay <file>             - re-executes a replay file in a fresh process.

exit 0: held on everything explored; 1: VIOLATION line printed; 3: no verdict."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from props import PROPS, COMMON_ASSUMPTIONS, STUBS


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def explore(exe, scen, seed, runs, first, tmax, known, ignore, out, replay, mintime):
    cmd = [exe, "explore", "--scenarios", ",".join(scen), "--seed", str(seed), "--runs", str(runs),
           "--first", str(first), "--time", str(tmax), "--jobs", str(os.cpu_count() or 8),
           "--determinism", "50", "--out", out, "--replay", replay, "--min-time", str(mintime)]
    if known:
        cmd += ["--known", ";".join(known)]
    if ignore:
        cmd += ["--ignore", ",".join(ignore)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=build.OUT)
    try:
        d = json.load(open(out))
    except Exception as e:
        print("simulator gave no result (rc %s): %s\n%s" % (r.returncode, e, r.stdout[-3000:]))
        sys.exit(3)
    return r.returncode, d


def merge(a, b):
    for k in ("runs", "ok", "distinct_interleavings", "steps", "context_switches", "sync_points", "events",
              "sim_seconds", "violations", "known", "foreign", "wall_s"):
        a[k] = a.get(k, 0) + b.get(k, 0)
    for k in ("max_threads", "max_steps"):
        a[k] = max(a.get(k, 0), b.get(k, 0))
    for k in ("faults", "probes"):
        for n, v in b.get(k, {}).items():
            o = a.setdefault(k, {}).setdefault(n, [0, 0])
            o[0] += v[0]
            o[1] += v[1]
    a["known_hit"] = sorted(set(a.get("known_hit", [])) | set(b.get("known_hit", [])))


def main():
    if sys.argv[1] == "--replay":
        exe = build.build()
        sys.exit(subprocess.run([exe, "replay", "--file", os.path.abspath(sys.argv[2])], cwd=build.OUT).returncode)
    pid, tier = sys.argv[1], sys.argv[2]
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    exe = build.build()
    tb = time.time() - t0
    budget = P["quick_s"] if tier == "quick" else P.get("thorough_s", 1500)
    mintime = 30 if tier == "quick" else 120
    known = [f for f in known_findings() if f["property"] == pid and f["status"] == "open"]
    tot = {"scenarios": {}}
    print("property=%s tier=%s VERIF_SEED=%d build_s=%.1f" % (pid, tier, seed, tb), flush=True)
    viol = None
    wsum = float(sum(w for _, w in P["scenarios"]))
    for scen, w in P["scenarios"]:
        tmax = budget * w / wsum
        runs = int(P["quick_runs"] * w / wsum) if tier == "quick" else 1 << 24
        out = os.path.join(VERIF, "build", "%s-%s-out.json" % (pid, scen))
        rep = os.path.join(VERIF, "replays", "%s-%s-seed%d.json" % (pid, scen, seed))
        ks = [f["signature"] for f in known if f["scenario"] == scen]
        first, ts = 0, time.time()
        errs = 0
        while True:
            left = tmax - (time.time() - ts)
            if left <= 0 and first:
                break
            rc, d = explore(exe, [scen], seed, runs - first, first, max(left, 1), ks, P.get("ignore", []), out, rep, mintime)
            merge(tot, d)
            s = tot["scenarios"].setdefault(scen, {"runs": 0, "wall_s": 0.0})
            s["runs"] += d["runs"]
            s["wall_s"] = round(s["wall_s"] + d["wall_s"], 2)
            if rc == 0:
                break
            if rc == 3:
                e = d.get("error", {})
                print("simulator error in %s: %s" % (scen, json.dumps(e)), flush=True)
                errs += 1
                if e.get("class") not in ("unreproducible", "unreplayable", "nondeterminism") or errs > 3:
                    write_evidence(P, pid, tier, seed, tot, t0, tb, 0, error=e)
                    sys.exit(3)
                first = int(e.get("index", first)) + 1
                continue
            v = d["violation"]
            rr = subprocess.run([exe, "replay", "--file", rep], stdout=subprocess.PIPE, text=True, errors="replace", cwd=build.OUT)
            if rr.returncode == 1:
                viol = (v, rep)
                break
            print("violation did not replay in a fresh process: %s" % rr.stdout[:600], flush=True)
            errs += 1
            if errs > 3:
                write_evidence(P, pid, tier, seed, tot, t0, tb, 0, error={"class": "unreplayable", "message": v["message"]})
                sys.exit(3)
            first = int(v["index"]) + 1
        if viol:
            break
        if errs:
            # not one failure reproduced: no verdict
            write_evidence(P, pid, tier, seed, tot, t0, tb, 0, error={"class": "nondeterminism"})
            sys.exit(3)
    for f in known:
        # each listed finding is shown on every run (its replay is part of the file)
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    write_evidence(P, pid, tier, seed, tot, t0, tb, 1 if viol else 0)
    c = tot
    print("runs=%d distinct_interleavings=%d sim_seconds=%.1f explore_s=%.1f faults=%s" % (
        c["runs"], c["distinct_interleavings"], c["sim_seconds"], c["wall_s"],
        {k: v[0] for k, v in c.get("faults", {}).items()}))
    if viol:
        v, rep = viol
        print("%s in scenario %s seed %d (minimised to %d choices from %d)\n%s" % (
            v["class"], v["scenario"], v["seed"], v["choices"], v["choices_before"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    sys.exit(0)


def write_evidence(P, pid, tier, seed, tot, t0, tb, nviol, error=None):
    wall = time.time() - t0
    ex = max(tot.get("wall_s", 0), 1e-6)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": tot.get("distinct_interleavings", 0),
            "rule": "one evaluation = one simulated execution of the whole workload under one seed (operations, "
                    "schedule, delays and faults all drawn from it); distinct = different hash of the complete "
                    "sequence of context switches (position, thread) and injected faults (position, kind), so runs "
                    "that differ in neither count once",
            "samples": [{"scenario": s, "first_run_seed": "mix64(VERIF_SEED=%d, index)" % seed, **v}
                        for s, v in tot.get("scenarios", {}).items()],
            "runs_per_hour": int(tot.get("runs", 0) / ex * 3600),
            "simulated_seconds": round(tot.get("sim_seconds", 0), 3),
            "scheduler_steps": tot.get("steps", 0),
            "context_switches": tot.get("context_switches", 0),
            "synchronisation_points": tot.get("sync_points", 0),
            "max_threads_in_a_run": tot.get("max_threads", 0),
            "faults_fired": {k: {"times": v[0], "runs": v[1]} for k, v in tot.get("faults", {}).items()},
            "rare_conditions_reached": {k: {"times": v[0], "runs": v[1]} for k, v in tot.get("probes", {}).items()},
            "real_components": P["real"], "stubbed_components": STUBS + P.get("stubs", []),
            "runs_ended_by_another_propertys_violation": tot.get("foreign", 0),
            "known_findings_hit": tot.get("known_hit", []),
        },
        "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    ev["coverage"]["build_s"] = round(tb, 2)
    if error:
        ev["coverage"]["error"] = error
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
