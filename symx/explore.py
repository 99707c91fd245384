"""Path exploration of one configuration of one harness, obligation queries and replays."""
import json
import math
import os
import subprocess
import sys
import time
from fractions import Fraction

import mpmath

from . import core, loader
from .core import CTX, Path, Ev, R, C, Bo, TRUE, FALSE, bo_and, bo_not, solve, Steer, Unsupported, PathAbort, mpf
from .env import SymEnv, Stop

PY = os.environ.get("SYMX_PY", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Replayer:
    """a persistent interpreter with the real package"""

    def __init__(self):
        self.p = None
        self.count = 0

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTHONHASHSEED="0", PYTHONNOUSERSITE="1")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "symx", "conc.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd="/")

    def run(self, harness, cfg, inputs, limit=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.count += 1
        vals = {}
        for k, v in inputs.items():
            vals[k] = float(v) if isinstance(v, (int, float, Fraction)) else float(mpmath.nstr(v, 20))
        try:
            self.p.stdin.write(json.dumps({"harness": harness, "cfg": cfg, "inputs": vals, "limit": limit}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise OSError("replay process ended")
            return json.loads(line)
        except (OSError, ValueError) as e:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
            return {"status": "error", "fails": [], "obs": [], "note": str(e), "inputs": vals, "undec": 0}

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=2)
            except Exception:
                self.p.kill()
            self.p = None


def witness_of(ev):
    return {n: ev.atom(a.aid) for n, a in CTX.inputs.items()}


def snapf(x):
    """witness value as the double that will be used"""
    if isinstance(x, Fraction):
        return float(x)
    return float(mpmath.nstr(x, 20))


class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.unsupported = {}
        self.undecided = []
        self.violation = None
        self.validated = 0
        self.mismatch = []
        self.infeasible = 0
        self.unknown_branches = 0
        self.complete = True
        self.samples = []
        self.replays = 0
        self.unreproduced = []
        self.stats = {}
        self.funcs = []


def evaluate_obs(path, ev):
    out = []
    for o in path.obs:
        if isinstance(o, C):
            out += [ev.r(o.re), ev.r(o.im)]
        else:
            out.append(ev.r(o))
    return [float(x) if mpmath.isfinite(x) else float(str(x)) if not mpmath.isnan(x) else math.nan for x in out]


def obs_agree(a, b):
    if len(a) != len(b):
        return "different number of outputs (%d, %d)" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if math.isnan(x) and math.isnan(y):
            continue
        if x == y:
            continue
        if not (abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))):
            return "output %d: model %r, real %r" % (i, x, y)
    return None


def run_config(mod, harness, cfg, rep, budget, log=None, fast=False):
    """explore one configuration; fast: give up at the first thing that takes long (the caller comes back to it)"""
    res = Result()
    t0 = time.time()
    CTX.reset()
    CTX.cut = cfg.get("cut", 0)
    CTX.fork, CTX.fuzz = cfg.get("fork", False), cfg.get("fuzz", False)
    if fast:
        budget = min(budget, 4)
        cfg = dict(cfg, timeout=min(cfg.get("timeout", 10.0), 2.0), branch_timeout=min(cfg.get("branch_timeout", 3.0), 1.0), fast=1)
    CTX.deadline = t0 + budget
    loader.FUNCS.clear()
    if hasattr(sys, "monitoring"):
        sys.monitoring.restart_events()
    maxpaths = cfg.get("maxpaths", 100000)
    stack = [([], {k: mpf(v) for k, v in cfg['base'].items()} if 'base' in cfg else None, None, True)]       # decisions, witness, over, real
    seen = 0
    sym = getattr(mod, "SYM_OPTS", {})
    while stack and res.violation is None:
        if time.time() - t0 > budget:
            res.complete = False
            res.undecided.append("time budget: %d open branches" % len(stack))
            break
        if res.paths >= maxpaths:
            res.complete = False
            res.undecided.append("path bound %d: %d open branches" % (maxpaths, len(stack)))
            break
        prefix, wit, over, real = stack.pop()
        path = Path(prefix, wit if wit is not None else {}, over, real)
        CTX.path = path
        status = "done"
        try:
            env = SymEnv(path)
            try:
                mod.run(env, cfg)
            except Stop:
                pass
        except Unsupported as e:
            status = "unsupported"
            res.unsupported[str(e)[:200]] = res.unsupported.get(str(e)[:200], 0) + 1
        except PathAbort as e:
            status = "abort"
        except z3err() as e:
            status = "unsupported"
            res.unsupported["z3: " + str(e)[:100]] = 1
        finally:
            CTX.path = None
        if status == "abort":
            schedule(path, stack, res, cfg, t0, budget)
            continue
        res.paths += 1
        if status == "unsupported":
            res.complete = False
        # the path's own witness on the real code
        ev = path.ev
        truly = True
        if not path.real or path.ev.over:
            ev2 = Ev({n: mpf(snapf(v)) for n, v in witness_of(ev).items()})
            try:
                truly = all(ev2.bo(x) for x in path.lits)
            except Exception:
                truly = False
            if truly:
                ev = ev2
        w = witness_of(ev)
        rr = rep.run(harness, cfg, w)
        res.replays += 1
        if rr["status"] == "violation":
            res.violation = {"cfg": cfg, "inputs": rr["inputs"], "fails": rr["fails"], "harness": harness,
                             "how": "path witness"}
            break
        if status == "done" and truly:
            if rr["status"] == "ok" and cfg.get("noval"):
                res.validated += 1          # the model stands for a family of runs: the replay's own checks count
            elif rr["status"] == "ok":
                try:
                    mo = evaluate_obs(path, Ev({n: mpf(snapf(v)) for n, v in w.items()}))
                    bad = obs_agree(mo, rr["obs"])
                except (Steer, Exception) as e:
                    bad = None
                if bad is None:
                    res.validated += 1
                elif len(res.mismatch) < 5:
                    res.mismatch.append("%s: %s (%s)" % (cfg.get("id"), bad, {k: snapf(v) for k, v in list(w.items())[:12]}))
                else:
                    res.mismatch.append("...")
            if len(res.samples) < 2:
                res.samples.append({"cfg": cfg.get("id"), "decisions": len(path.trace), "obligations": len(path.obl),
                                    "witness": {k: snapf(v) for k, v in list(w.items())[:10]},
                                    "replay": rr["status"]})
        if log:
            log("path %d: %s, %d decisions, %d obligations, replay %s %s" % (
                res.paths, status, len(path.trace), len(path.obl), rr["status"], (rr.get("note") or "")[-300:]))
        # obligations
        if status == "done" or path.obl:
            check_obligations(path, harness, cfg, rep, res, log)
            if fast and res.discharged < res.obligations:
                res.complete = False
                break
        if res.violation is None:
            schedule(path, stack, res, cfg, t0, budget)
    res.stats = dict(CTX.stats)
    res.funcs = sorted(loader.FUNCS)
    res.wall = time.time() - t0
    return res


def schedule(path, stack, res, cfg, t0, budget):
    """put the feasible alternatives of this path's decisions on the stack (deepest last: DFS)"""
    alts = []
    for (k, nl, b, v) in path.new:
        lits = path.lits[:nl] + [b if v else bo_not(b)]
        alts.append((path.base + path.trace[:k] + [(b, v)], lits))
    for pre, lits in alts:
        if time.time() - t0 > budget:
            res.complete = False
            res.undecided.append("time budget while scheduling")
            break
        r = solve(lits, timeout=cfg.get("branch_timeout", 3.0), seedw=witness_of(path.ev))
        if r.st == "unsat":
            res.infeasible += 1
        elif r.st == "sat":
            stack.append((pre, r.inputs, r.over, r.exact))
        else:
            # try the relaxed model numerically
            ok = False
            if r.inputs is not None:
                ev = Ev(r.inputs)
                try:
                    ok = all(ev.bo(x) for x in lits)
                except Exception:
                    ok = False
            if ok:
                stack.append((pre, r.inputs, None, True))
            else:
                res.unknown_branches += 1
                res.complete = False


def z3err():
    import z3
    return z3.Z3Exception


def check_obligations(path, harness, cfg, rep, res, log):
    obl = {}
    if CTX.cut:
        CTX.path = path
        try:
            path.obl = [(core.recanon(b), label) for b, label in path.obl]
            path.pairs = [(core.recanon(a), core.recanon(b)) for a, b in path.pairs]
        finally:
            CTX.path = None
    for b, label in path.obl:
        obl.setdefault((b.id if b.v is None else b.v), (b, label))
    res.obligations += len(path.obl)
    allb = [b for b, _ in obl.values()]
    tmo = cfg.get("timeout", 10.0)
    if not allb:
        return
    neg = bo_not(bo_and(*allb))
    if neg.v is False:
        if path.pairs:
            core.solve_pairs(path.pairs)
        res.discharged += len(path.obl)
        return
    sw = witness_of(path.ev)
    r = solve(path.lits + [neg], timeout=tmo, seedw=sw)
    if r.st == "unsat":
        res.discharged += len(path.obl)
        return
    if cfg.get("fast"):
        res.discharged += len(path.obl) - len(allb)
        if r.inputs is not None:
            rr = rep.run(harness, cfg, r.inputs)
            res.replays += 1
            if rr["status"] == "violation":
                res.violation = {"cfg": cfg, "inputs": rr["inputs"], "fails": rr["fails"], "harness": harness, "how": "solver model"}
        return
    # one at a time
    bad = 0
    failed = 0
    for b, label in obl.values():
        if b.v is True:
            continue
        r = solve(path.lits + [bo_not(b)], timeout=tmo, seedw=sw)
        if r.st == "unsat":
            continue
        bad += 1
        if failed >= 6 or time.time() > CTX.deadline:
            continue
        failed += 1
        seenw = []
        ok = False
        for kw in (dict(margin=Fraction(1, 10)), dict(margin=Fraction(1, 10000)), None, dict(nice=4), dict(nice=16)):
            if kw is None:
                s = r
            elif time.time() > CTX.deadline:
                continue
            else:
                s = solve(path.lits + [bo_not(b)], timeout=min(tmo, 6.0), seedw=sw, **kw)
            if s.inputs is None:
                continue
            key = tuple(sorted((k, snapf(v)) for k, v in s.inputs.items()))
            if key in seenw:
                continue
            seenw.append(key)
            rr = rep.run(harness, cfg, s.inputs)
            res.replays += 1
            if log:
                log("  candidate for %r (%s %s): %s %s" % (label, s.st, kw, rr["status"], rr["fails"][:1] or rr.get("note")))
            if rr["status"] == "violation":
                res.violation = {"cfg": cfg, "inputs": rr["inputs"], "fails": rr["fails"], "harness": harness,
                                 "how": "solver model"}
                return
            ok = ok or s.st == "sat"
        tag = "not reproduced" if r.st == "sat" else "solver: unknown"
        if len(res.unreproduced) < 8:
            res.unreproduced.append("%s: %s (%s)" % (cfg.get("id"), label, tag))
    res.discharged += len(path.obl) - bad
