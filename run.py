#!/usr/bin/env python3-vt
"""run.py PROPERTY [--tier quick|thorough] [--cfg SUBSTRING] [--verbose] [--replay FILE]"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"

TIERS = {"quick": dict(total=240, per=150), "thorough": dict(total=3000, per=1500)}


def harness_for(prop):
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n.lower().startswith(prop.lower() + "_") or n.lower() == prop.lower():
            return n
    raise SystemExit("no harness for " + prop)


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = {}
                head, _, what = line[7:].partition(" :: ")
                for t in head.split():
                    k, _, v = t.partition("=")
                    d[k] = v
                d["what"] = what
                out.append(d)
    return out


_rep = None


def work(args):
    harness, cfg, budget, verbose, fast = args
    global _rep
    from symx import explore, loader, core
    if _rep is None:
        _rep = explore.Replayer()
        loader.start_monitor()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("harness." + harness)
    log = None
    if verbose:
        core.CTX.debug = verbose > 1

    if verbose > 1:
        def log(s):
            print("[%s] %s" % (cfg["id"], s), flush=True)
    cfg = json.loads(json.dumps(cfg))
    try:
        r = explore.run_config(mod, harness, cfg, _rep, budget, log, fast)
    except MemoryError:
        return cfg, {"crash": "memory"}
    except Exception:
        return cfg, {"crash": traceback.format_exc()[-1500:]}
    return cfg, vars(r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cfg")
    ap.add_argument("--verbose", "-v", action="count", default=0)
    ap.add_argument("--replay")
    ap.add_argument("--serial", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    harness = harness_for(prop)
    if a.replay:
        from symx import explore
        d = json.load(open(a.replay))
        rep = explore.Replayer()
        r = rep.run(d["harness"], d["cfg"], d["inputs"])
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] == "violation" else 0)
    t0 = time.time()
    tier = a.tier if a.tier in TIERS else "quick"
    mod = importlib.import_module("harness." + harness)
    cfgs = mod.configs(tier)
    ids = [c["id"] for c in cfgs]
    assert len(set(ids)) == len(ids), "duplicate configuration ids"
    if a.cfg:
        cfgs = [c for c in cfgs if a.cfg in c["id"]]
    lim = TIERS[tier]
    known = [k for k in load_known() if k.get("property") == prop]
    results = []
    viol = None
    crashed = []
    kf = []
    budget = getattr(mod, "BUDGET", {}).get(tier, lim["per"])
    jobs = [[harness, c, c.get("budget", budget), a.verbose, False] for c in cfgs]
    # long ones first
    jobs.sort(key=lambda j: -j[1].get("weight", 1))
    nproc = 1 if a.serial else min(8, max(1, len(jobs)))
    pool = None if a.serial else mp.get_context("fork").Pool(nproc)
    unfinished = []
    try:
        for fast in (True, False):
            # first round: everything that is decided at once; second round: the rest, with the full budget
            todo = [(h, c, bu, v, fast) for h, c, bu, v, _ in jobs]
            it = map(work, todo) if pool is None else pool.imap_unordered(work, todo, chunksize=1)
            again, done = set(), set()
            while len(done) < len(todo) and viol is None:
                try:
                    if pool is not None:
                        left = lim["total"] - (time.time() - t0)
                        cfg, r = it.next(timeout=max(0.1, left))
                    else:
                        cfg, r = next(it)
                except mp.TimeoutError:
                    unfinished = [j[1]["id"] for j in jobs if j[1]["id"] not in done or j[1]["id"] in again]
                    break
                done.add(cfg["id"])
                if "crash" in r:
                    crashed.append((cfg["id"], r["crash"]))
                    if a.verbose:
                        print(r["crash"])
                    continue
                if fast and not r["complete"] and not r["violation"]:
                    again.add(cfg["id"])
                    continue
                results.append((cfg, r))
                if a.verbose:
                    print("## %s paths=%d obl=%d/%d val=%d infeas=%d unk=%d complete=%s unsup=%s mism=%s unrep=%s %.1fs q=%d %.1fs" % (
                        cfg["id"], r["paths"], r["discharged"], r["obligations"], r["validated"], r["infeasible"],
                        r["unknown_branches"], r["complete"], r["unsupported"], r["mismatch"][:2], r["unreproduced"][:3], r["wall"],
                        r["stats"]["queries"], r["stats"]["solver_s"]), flush=True)
                if r["violation"]:
                    v = r["violation"]
                    hit = None
                    for k in known:
                        if k.get("cfg") == cfg["id"] and k.get("label", "").replace(" ", "_") in v["fails"][0].replace(" ", "_"):
                            hit = k
                    if hit:
                        kf.append(hit)
                        continue
                    viol = v
            if viol or unfinished:
                break
            jobs = [j for j in jobs if j[1]["id"] in again]
            if not jobs:
                break
    finally:
        if pool is not None:
            pool.terminate()
    wall = time.time() - t0
    agg = dict(paths=0, obligations=0, discharged=0, validated=0, infeasible=0, unknown_branches=0, replays=0)
    st = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, branches=0, linear_unsat=0)
    funcs, unsup, und, mism, unrep, samples = set(), {}, [], [], [], []
    undec_cfg = []
    for c, r in results:
        for k in agg:
            agg[k] += r[k]
        for k in st:
            st[k] += r["stats"][k]
        funcs |= set(r["funcs"])
        for k, v in r["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + v
        und += ["%s: %s" % (c["id"], x) for x in r["undecided"]]
        mism += r["mismatch"]
        unrep += r["unreproduced"]
        if len(samples) < 6:
            samples += r["samples"][:1]
        if (not r["complete"] or r["unreproduced"] or r["unsupported"]) and not r["violation"]:
            undec_cfg.append(c["id"])
    for h in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, h["what"]))
    for x in sorted(unsup):
        print("INCONCLUSIVE property=%s not encoded: %s (%d paths)" % (prop, x, unsup[x]))
    for x in und[:10]:
        print("INCONCLUSIVE property=%s %s" % (prop, x))
    for x in unrep[:10]:
        print("INCONCLUSIVE property=%s undecided obligation %s" % (prop, x))
    for x in mism[:10]:
        print("NOTE property=%s model and real code disagree on a witness: %s" % (prop, x))
    for c, x in crashed:
        print("INCONCLUSIVE property=%s configuration %s: check error %s" % (prop, c, x.strip().splitlines()[-1]))
    for x in unfinished:
        print("INCONCLUSIVE property=%s configuration %s: out of time" % (prop, x))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": agg["paths"], "transitions": st["branches"],
            "traces_validated_against_impl": agg["validated"],
            "samples": samples or [{"note": "no path completed"}],
            "configurations": len(results), "configurations_decided": len(results) - len(undec_cfg),
            "configurations_not_fully_decided": undec_cfg[:40],
            "functions_encoded": sorted(funcs), "bounds": getattr(mod, "BOUNDS", ""),
            "obligations": agg["obligations"], "discharged": agg["discharged"],
            "queries": st["queries"], "unsat": st["unsat"], "sat": st["sat"], "unknown": st["unknown"],
            "decided_by_linear_relaxation": st["linear_unsat"], "infeasible_branches": agg["infeasible"],
            "undecided_branches": agg["unknown_branches"],
            "solver_s": round(st["solver_s"], 2), "replays_on_real_code": agg["replays"],
            "not_encoded": unsup, "model_mismatches": len(mism), "unfinished_configurations": unfinished,
            "check_errors": [c for c, _ in crashed],
        },
        "assumptions": ["exact real arithmetic: IEEE-754 rounding is outside the claim (constants that agree to 1e-10 "
                        "are identified)"] + list(getattr(mod, "ASSUMES", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    if viol:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps(viol, sort_keys=True).encode()).hexdigest()[:10])
        p = os.path.join(d, name)
        with open(p, "w") as f:
            json.dump(viol, f, indent=1)
        ev["coverage"]["violation"] = {"cfg": viol["cfg"]["id"], "fails": viol["fails"], "inputs": dict(list(viol["inputs"].items())[:40])}
        print("configuration %s: %s" % (viol["cfg"]["id"], "; ".join(viol["fails"][:3])))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rc = 1
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d configurations, %d paths, %d/%d obligations discharged, %d queries (%.1fs solver), %d replays agree, "
          "%.1fs" % (prop, tier, len(results), agg["paths"], agg["discharged"], agg["obligations"], st["queries"],
                     st["solver_s"], agg["validated"], wall))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
