#!/usr/bin/env python3
"""Run one property's check: build the simulator against /repo, search schedules and faults, write evidence.
Usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--time S]"""
import argparse, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, registry

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--time", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    c = registry.CHECKS[a.property]
    tgt = registry.TARGET_INFO[c["target"]]
    t0 = time.time()
    if not build.build([c["target"]]):
        print("BUILD FAILED: no verdict")
        return 3
    t_build = time.time() - t0
    limit = a.time or (c.get("quick", 20) if a.tier == "quick" else c.get("thorough", 1200))
    rdir = build.OUT + "/replays"
    os.makedirs(rdir, exist_ok=True)
    out = f"{build.OUT}/out.{a.property}.json"
    if os.path.exists(out): os.unlink(out)
    binp = f"{build.OUT}/bin/{c['target']}"
    cmd = [binp, "--prop", a.property, "--seed", str(a.seed), "--time", str(limit), "--jobs", str(a.jobs), "--out", out, "--replay-dir", rdir]
    if "cpu" in c: cmd += ["--cpu", str(c["cpu"])]
    r = subprocess.run(cmd, cwd=build.VERIF)
    try: o = json.load(open(out))
    except Exception: o = None
    if r.returncode not in (0, 1) or o is None:
        print(f"check of {a.property}: no verdict (driver exit {r.returncode})")
        return 3
    # one written-out case: the first seed of this run
    sample_seed = o["seed_first"]
    s = subprocess.run([binp, "--prop", a.property, "--one", str(sample_seed), "-vv"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    lines = s.stdout.splitlines()
    sample = {"seed": sample_seed, "trace_lines": len(lines), "trace": [x[:200] for x in (lines[:30] + (["..."] if len(lines) > 40 else []) + lines[-10:])]}
    cnt = o["counts"]
    faults = {k: v for k, v in cnt.items() if k.startswith(("fault", "crash", "kill", "net_", "disk_", "drop", "partition", "byz", "thread_stall", "plot ", "reload", "chain switch", "older peak", "other timelord", "proofs forgotten", "stopped", "restart", "raw_", "forged_", "liar_", "node_slow", "node_request_failed", "samples_dropped"))}
    ev = {
        "property": a.property, "tier": a.tier, "seed": a.seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": o["runs"], "distinct_nontrivial": o["distinct_nontrivial"],
            "rule": c["rule"],
            "samples": [sample],
            "seeds": [o["seed_first"], o["seed_last"]],
            "runs_per_hour": o["runs_per_hour"], "simulated_seconds": o["sim_seconds"], "scheduler_steps": o["steps"],
            "distinct_traces": o["distinct_traces"], "distinct_schedules": o["distinct_schedules"],
            "distinct_states": o["distinct_states"], "state_measure": c.get("states", o["rule"]),
            "faults_injected": faults, "probes": {k: v for k, v in cnt.items() if k not in faults},
            "runs_with": o["run_counts"],
            "real_components": tgt["real"], "stubbed_components": tgt["stub"],
        },
        "assumptions": tgt["assumptions"] + c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": o["violations"],
    }
    os.makedirs(build.VERIF + "/evidence", exist_ok=True)
    with open(f"{build.VERIF}/evidence/{a.property}.json", "w") as f: json.dump(ev, f, indent=1)
    for k in registry.known(a.property): print(f"KNOWN-FINDING: property={a.property} {k}")
    dead = [p for p in c.get("probes", []) if not cnt.get(p)]
    if dead: print(f"note: probes never reached in this run: {', '.join(dead)}")
    print(f"{a.property}: build {t_build:.1f} s, {o['runs']} runs, {o['runs_per_hour']}/h, {o['distinct_traces']} distinct traces, exit {r.returncode}")
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())
