#!/usr/bin/env python3
"""Decides one property: rebuilds the harness crates against /repo's current sources, executes their LLVM IR
symbolically (symx) and lets Z3 decide every assertion for all values within the stated bounds.

  check.py PROPERTY [--tier quick|thorough]     decide a property
  check.py --replay FILE                        re-run a stored counterexample natively
  check.py --setup                              build the engine and every harness crate
Exit 0: held; 1: VIOLATION (reproduced natively); 2: no answer."""
import argparse, concurrent.futures as cf, json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from specs import PROPS
WORK = os.environ.get("VERIF_WORK", os.path.join(V, "work"))
TOOL = os.environ.get("VERIF_TOOLCHAIN", "stable")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
SYMX = os.path.join(WORK, "symx", "release", "symx")

def sh(cmd, cwd, env, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode

def build_engine():
    r = sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "symx"), dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "symx")), os.path.join(WORK, "symx.log"))
    if r:
        print(open(os.path.join(WORK, "symx.log")).read()[-3000:])
    return r == 0

def build_crate(c):
    log = os.path.join(WORK, f"build-{c}.log")
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "ws"))
    r = sh(["cargo", "rustc", "--release", "--offline", "-p", f"h-{c}", "--", "--emit=llvm-ir,link",
            "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"],
           os.path.join(V, "ws"), env, log)
    if r:
        t = open(log).read()
        i = t.find("error")
        print(f"build of h-{c} against /repo failed:\n" + t[max(0, i):i + 3000])
    return r == 0

def paths(c):
    n = c.replace("-", "_")
    d = os.path.join(WORK, "ws", "release")
    return os.path.join(d, "deps", f"h_{n}.ll"), os.path.join(d, f"libh_{n}.so")

def run_one(job):
    c, h, args, out = job
    ll, so = paths(c)
    t = time.time()
    try:
        p = subprocess.run([SYMX, "run", "--ll", ll, "--so", so, "--harness", h, "--out", out] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError as e:
        return {"harness": h, "status": "inconclusive", "inconclusive": [str(e)], "violations": []}
    try:
        d = json.load(open(out))
    except Exception:
        d = {"harness": h, "status": "inconclusive", "inconclusive": [f"engine exit {p.returncode}: {p.stdout[-800:]}"], "violations": []}
    d["crate"] = c
    d["wall"] = time.time() - t
    return d

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    if a.setup:
        ok = build_engine()
        for c in sorted({r[0] for p in PROPS.values() for r in p["runs"] + p.get("deep", [])}):
            ok = build_crate(c) and ok
        return 0 if ok else 2
    if a.replay:
        d = json.load(open(a.replay))
        if not (build_engine() and build_crate(d["crate"])):
            return 2
        r = subprocess.run([SYMX, "replay", "--so", paths(d["crate"])[1], "--harness", d["harness"], "--vals", d["vals"]])
        print("exit", r.returncode, "(3: an assertion failed, 134/-6: panic)")
        return 0
    t0 = time.time()
    P = PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    runs = list(P["runs"]) + (list(P.get("deep", [])) if tier == "thorough" else [])
    if a.only:
        runs = [r for r in runs if r[1] == a.only]
    evd = os.path.join(V, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    ev_path = os.path.join(evd, a.prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    if not a.no_build:
        if not build_engine():
            print("engine build failed"); return 2
        for c in sorted({r[0] for r in runs}):
            if not build_crate(c):
                return 2
    tb = time.time() - t0
    budget = (780 if tier == "quick" else 3000) - tb
    jobs = []
    for r in runs:
        c, h, reach = r[0], r[1], r[2]
        extra = list(r[3]) if len(r) > 3 else []
        if "--timeout" not in extra:
            extra += ["--timeout", str(int(budget))]
        jobs.append((c, h, extra, os.path.join(WORK, f"o-{a.prop}-{h}.json")))
    with cf.ThreadPoolExecutor(max_workers=a.j) as ex:
        res = list(ex.map(run_one, jobs))
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == a.prop and k.get("status") == "known"]
    rc, nviol = 0, 0
    known_hit = set()
    for r, d in zip(runs, res):
        h, need = r[1], r[2]
        miss = [x for x in need if not d.get("reach", {}).get(x)]
        for v in d.get("violations", []):
            kf = [i for i, k in enumerate(known) if k["harness"] == h and k["assertion"] == v["what"]]
            if kf and v["reproduced"]:
                known_hit.update(kf)
                continue
            f = os.path.join(evd, "replay", f"{a.prop}-{h}.json")
            json.dump({"property": a.prop, "crate": d["crate"], "harness": h, "what": v["what"], "vals": v["vals"], "native": v["native"], "how": f"python3 check.py --replay {f}"}, open(f, "w"), indent=1)
            if v["reproduced"]:
                nviol += 1
                print(f"  {h}: {v['what']} -- {v['native']}")
                print(f"VIOLATION property={a.prop} replay={f}")
                rc = 1
            else:
                print(f"  {h}: counterexample for '{v['what']}' did not reproduce natively ({v['native']})")
                rc = rc or 2
        if d.get("status") == "inconclusive" or d.get("inconclusive"):
            print(f"  {h}: no answer: " + "; ".join(d.get("inconclusive", []))[:1500])
            rc = rc or 2
        elif d.get("status") == "ok" and miss:
            print(f"  {h}: vacuous, never reached: {miss}")
            rc = rc or 2
        print(f"  {h}: {d.get('status')} paths={d.get('paths')} queries={d.get('queries')} solver={d.get('solver_s', 0):.1f}s wall={d.get('wall', 0):.1f}s")
    for i in sorted(known_hit):
        print(f"KNOWN-FINDING: property={a.prop} {known[i]['what_fails']}")
    funcs = sorted({f for d in res for f in d.get("funcs", [])})
    s = lambda k: sum(int(d.get(k, 0)) for d in res)
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": s("paths"), "transitions": s("forks"), "traces_validated_against_impl": s("replayed_paths"),
            "samples": [{"harness": d.get("harness"), "inputs (width:value)": x} for d in res for x in d.get("samples", [])[:1]][:6],
            "explanation": "states: feasible symbolic paths executed to the end; transitions: solver-decided forks; traces_validated_against_impl: paths whose solver model was re-run natively on the compiled code with identical observations",
            "bounds": P["bounds"],
            "assertions_evaluated": sum(v[0] for d in res for v in d.get("checks", {}).values()),
            "assertions_needing_the_solver": sum(v[1] for d in res for v in d.get("checks", {}).values()),
            "queries_discharged": s("queries"), "solver_unknown": s("unknown"),
            "solver_seconds": round(sum(d.get("solver_s", 0) for d in res), 3),
            "llvm_instructions_executed": s("steps"),
            "functions_encoded": len(funcs), "functions": funcs[:400],
            "harnesses": [{k: d.get(k) for k in ("crate", "harness", "status", "paths", "cut", "queries", "int_queries", "unknown", "solver_s", "replayed_paths", "checks", "reach", "panics")} for d in res],
            "outside_the_claim": P.get("outside", ""),
            "build_s": round(tb, 1),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"{a.prop} {tier}: {'held' if rc == 0 else 'VIOLATED' if rc == 1 else 'no answer'} in {time.time() - t0:.1f}s (build {tb:.1f}s)")
    return rc
if __name__ == "__main__":
    sys.exit(main())
