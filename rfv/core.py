"""Framework of the runtime monitors: workloads, observers, verdicts, evidence.

A check module (checks/Pxx.py) provides

  ID, RULE, REQUIRED        property id, evidence rule, oracles that must have observed something
  cases(rng, tier)          list of JSON-able workload descriptions ("kind" and "seed" at least)
  run(case, ob)             drives the real code and lets `ob` judge what it observed

Verdict: exit 0 (held on everything observed), exit 1 with a VIOLATION line, exit 3 (inconclusive:
the monitors did not observe what they must, or the harness itself failed).
"""
import fnmatch
import hashlib
import json
import math
import os
import random
import signal
import sys
import threading
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("RFV_REPO", "/repo"))
SCRATCH = os.environ.get("RFV_SCRATCH", "/tmp")


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Raised by an observer to leave a case after a violation that makes the rest meaningless."""


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 40 else "array%s" % (o.shape,)
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        o = o.item()
    if isinstance(o, float) and not math.isfinite(o):
        return repr(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:200]


class Observer:
    """Collects what the oracles and monitors see while one case runs."""

    def __init__(self, case):
        self.case = case
        self.oracles = {}
        self.worst = {}
        self.violations = []
        self.fps = set()
        self.events = {}
        self.notes = []

    # -- monitors -----------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def fp(self, *items):
        """Fingerprint of a distinct, non-trivial execution."""
        s = json.dumps(jsonable(items), sort_keys=True)
        self.fps.add(hashlib.sha1(s.encode()).hexdigest()[:16])

    # -- oracles ------------------------------------------------------------------------------
    def check(self, oracle, ok, msg="", key=None, n=1, **data):
        self.oracles[oracle] = self.oracles.get(oracle, 0) + int(n)
        if not bool(ok):
            self.fail(oracle, msg, key, **data)
        return bool(ok)

    def fail(self, oracle, msg="", key=None, **data):
        self.violations.append({
            "oracle": oracle, "key": key or oracle, "msg": str(msg)[:600], "data": jsonable(data),
            "case": self.case})

    def close(self, oracle, got, want, atol=1e-9, rtol=0.0, msg="", key=None, **data):
        """|got - want| <= atol + rtol*|want| everywhere, and got is finite and of want's shape."""
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            try:
                np.broadcast_shapes(g.shape, w.shape)
                same = g.size >= w.size
            except ValueError:
                same = False
            if not same:
                return self.check(oracle, False, "%s: shape %s, expected %s" % (msg, g.shape, w.shape), key, **data)
        if g.size == 0:
            return True
        with np.errstate(all="ignore"):
            dev = np.abs(g - w)
            lim = atol + rtol * np.abs(w) + np.zeros_like(dev)
            ratio = np.where(np.isfinite(dev), dev / np.where(lim > 0, lim, 1e-300), np.inf)
        r = float(np.max(ratio))
        self.worst[oracle] = max(self.worst.get(oracle, 0.0), r)
        if r <= 1:
            return self.check(oracle, True, n=g.size)
        i = np.unravel_index(int(np.argmax(ratio)), ratio.shape)
        gb = np.broadcast_to(g, ratio.shape)[i]
        wb = np.broadcast_to(w, ratio.shape)[i]
        return self.check(oracle, False, "%s: at %s observed %r, expected %r (deviation is %.3g of the tolerance)"
                          % (msg, tuple(int(k) for k in i), gb.item(), wb.item(), r), key, n=g.size,
                          index=[int(k) for k in i], observed=gb.item(), expected=wb.item(), **data)

    def between(self, oracle, x, lo, hi, msg="", key=None, **data):
        x = np.atleast_1d(np.asarray(x, dtype=float))
        if x.size == 0:
            return True
        bad = ~((x >= lo) & (x <= hi))
        if not bad.any():
            return self.check(oracle, True, n=x.size)
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        return self.check(oracle, False, "%s: at %s observed %r, outside [%r, %r]" % (msg, i, x[i].item(), np.broadcast_to(lo, x.shape)[i].item(), np.broadcast_to(hi, x.shape)[i].item()),
                          key, n=x.size, **data)

    def finite(self, oracle, x, msg="", key=None):
        x = np.asarray(x)
        ok = bool(np.all(np.isfinite(x)) and np.all(np.abs(x) < 1e250))
        return self.check(oracle, ok, "%s: not finite or uninitialised" % msg, key, n=max(1, x.size))

    def require(self, ok):
        if not ok:
            raise Stop()


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))


def poison(pattern=0x7F):
    try:
        import rfv_poison
        rfv_poison.install(pattern)
        return rfv_poison
    except ImportError:
        return None


def _alarm(sig, frm):
    raise CaseTimeout(sig)


def set_limit(limit):
    """Computing time a case may use (a busy machine does not count), and a generous limit of real time."""
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 3 * limit)


def stop_workers():
    """Ends the processes a parallel calculation left waiting."""
    m = sys.modules.get("joblib.externals.loky.reusable_executor")
    ex = getattr(m, "_executor", None)
    if ex is not None:
        try:
            ex.shutdown(wait=True, kill_workers=True)
        except Exception:  # noqa
            pass


def run_case(mod, case, limit):
    """Runs one case in this process and returns the plain-data result."""
    ob = Observer(case)
    p = poison(0x7F if case["seed"] % 2 else 0xFF)
    f0 = p.stats()[0] if p else 0
    d = os.path.join(SCRATCH, "case_%d_%d" % (os.getpid(), int(time.time() * 1e6)))
    os.makedirs(d)
    cwd = os.getcwd()
    os.chdir(d)
    ob.dir = d
    err = None
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    set_limit(limit)
    try:
        seed_all(case["seed"])
        with np.errstate(all="ignore"):
            mod.run(case, ob)
    except Stop:
        pass
    except CaseTimeout as e:
        set_limit(0)
        tb = traceback.format_exc()
        if e.args[0] == signal.SIGPROF and REPO + "/rayflare" in tb:
            ob.fail("terminates", "the call did not finish within %d s of computing time (cases of this kind take seconds)" % limit,
                    "no-termination:" + case["kind"])
        else:
            err = "case timed out in the harness: " + tb[-600:]
    except Exception as e:  # noqa
        set_limit(0)
        frames = traceback.extract_tb(e.__traceback__)
        in_repo = any(os.path.realpath(f.filename).startswith(REPO + "/") for f in frames)
        tb = "".join(traceback.format_exception(e))[-1500:]
        harness_call = isinstance(e, (ImportError, AttributeError, NotImplementedError, MemoryError)) and not in_repo
        if in_repo and isinstance(e, TypeError) and "argument" in str(e) and \
                not os.path.realpath(frames[-1].filename).startswith(REPO + "/"):
            pass
        if in_repo:
            ob.fail("completes", "valid use raised %s: %s | %s" % (type(e).__name__, e, tb[-500:]),
                    "exception:%s:%s" % (case["kind"], type(e).__name__))
        elif isinstance(e, (KeyError, IndexError, ValueError, AssertionError)) and not harness_call:
            ob.fail("well-formed", "result is malformed, oracle raised %s: %s | %s" % (type(e).__name__, e, tb[-500:]),
                    "malformed:%s:%s" % (case["kind"], type(e).__name__))
        else:
            err = tb
    finally:
        set_limit(0)
        os.chdir(cwd)
        stop_workers()
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    if p:
        ob.event("numpy buffers poisoned", p.stats()[0] - f0)
    return {"oracles": ob.oracles, "worst": ob.worst, "violations": ob.violations, "fps": sorted(ob.fps),
            "events": ob.events, "notes": ob.notes, "err": err, "t": time.time() - t0, "case": case}


_MOD = None


def _worker(case, limit):
    return run_case(_MOD, case, limit)


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            entries = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == pid and e["status"] == "known"]


def main(mod, tier, seed, replay=None, jobs=None, only=None):
    import logging
    t0 = time.time()
    pid = mod.ID
    import importlib
    if hasattr(mod, "before"):
        mod.before()
    import rayflare
    for m in ("ray_tracing.rt", "rigorous_coupled_wave_analysis.rcwa", "transfer_matrix_method.tmm",
              "matrix_formalism.process_structure", "matrix_formalism.multiply_matrices", "textures", "structure",
              "analytic.diffraction", "utilities", "angles", "options"):
        try:
            with open(os.devnull, "w") as dn:
                old, sys.stderr = sys.stderr, dn
                oldo, sys.stdout = sys.stdout, dn
                logging.disable(logging.CRITICAL)
                try:
                    importlib.import_module("rayflare." + m)
                finally:
                    sys.stderr, sys.stdout = old, oldo
        except Exception:
            pass        # a case that needs it reports it
    logging.disable(logging.CRITICAL)
    if not os.path.realpath(rayflare.__file__).startswith(REPO + "/"):
        print("harness error: rayflare imported from", rayflare.__file__)
        return 3
    limit = getattr(mod, "CASE_LIMIT", 300)
    budget = 780 if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 6 * 3600)
    if replay:
        with open(replay) as f:
            case_list = [json.load(f)["case"]]
    else:
        rng = np.random.default_rng([seed, int(pid[1:])])
        case_list = mod.cases(rng, tier)
    if only:
        case_list = [c for c in case_list if fnmatch.fnmatch(c["kind"], only)]
    for c in case_list:
        c.setdefault("seed", 0)
    if hasattr(mod, "setup"):
        mod.setup()
    order = sorted(range(len(case_list)), key=lambda i: -case_list[i].get("cost", 1))
    results = []
    errors = []
    jobs = jobs or int(os.environ.get("RFV_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if replay or jobs == 1:
        for i in order:
            results.append(run_case(mod, case_list[i], limit))
    else:
        import concurrent.futures as cf
        import multiprocessing as mp
        ex = cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"))
        global _MOD
        _MOD = mod
        futs = [ex.submit(_worker, case_list[i], limit) for i in order]
        try:
            for f in cf.as_completed(futs, timeout=max(5, budget - (time.time() - t0))):
                try:
                    results.append(f.result())
                except Exception as e:  # noqa
                    errors.append("worker failed: %r" % (e,))
        except cf.TimeoutError:
            errors.append("budget of %d s exceeded with %d of %d cases done" % (budget, len(results), len(futs)))
        procs = list((getattr(ex, "_processes", None) or {}).values())
        if not errors:
            t = threading.Thread(target=ex.shutdown, daemon=True)
            t.start()
            t.join(10)
        else:
            ex.shutdown(wait=False, cancel_futures=True)
        for pr in procs:
            try:
                pr.kill()
            except Exception:
                pass
    oracles, worst, events, fps, viol = {}, {}, {}, set(), []
    for r in results:
        for k, v in r["oracles"].items():
            oracles[k] = oracles.get(k, 0) + v
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        fps.update(r["fps"])
        viol += r["violations"]
        if r["err"]:
            errors.append(r["err"])
    if hasattr(mod, "finish"):
        class _Fin(Observer):
            pass
        ob = _Fin({"kind": "finish", "seed": seed})
        mod.finish(results, ob)
        viol += ob.violations
        for k, v in ob.oracles.items():
            oracles[k] = oracles.get(k, 0) + v
    known = known_findings(pid)
    groups = {}
    for v in viol:
        groups.setdefault(v["key"], []).append(v)
    seen_known, fresh = [], []
    for k, vs in sorted(groups.items()):
        e = [e for e in known if e["key"] == k]
        (seen_known if e else fresh).append((k, vs, e))
    rc = 0
    if not replay:
        for e in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]) + ("" if any(k == e["key"] for k, _, _ in seen_known) else " (not triggered in this run)"))
    rdir = os.path.join(VERIF, "replays")
    for n, (k, vs, _) in enumerate(fresh):
        rc = 1
        if n >= 12:
            break
        v = vs[0]
        os.makedirs(rdir, exist_ok=True)
        name = "%s-%s.json" % (pid, hashlib.sha1((k + json.dumps(v["case"], sort_keys=True, default=str)).encode()).hexdigest()[:10])
        path = replay or os.path.join(rdir, name)
        if not replay:
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "key": k, "n_seen": len(vs), **v}, f, indent=1, default=str)
        print("  %s x%d: %s" % (k, len(vs), v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    missing = [] if (replay or only) else [o for o in mod.REQUIRED if not oracles.get(o)]
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len({tuple(r["fps"]) for r in results if r["fps"]}),
        "distinct_nontrivial_observations": len(fps),
        "rule": mod.RULE,
        "observations_per_oracle": dict(sorted(oracles.items())),
        "monitor_events": dict(sorted(events.items())),
        "worst_fraction_of_tolerance": {k: float("%.3g" % v) for k, v in sorted(worst.items()) if math.isfinite(v)},
        "case_kinds": {},
        "samples": jsonable([r["case"] for r in sorted(results, key=lambda r: -r["case"].get("cost", 1))[:3]]),
    }
    for r in results:
        cov["case_kinds"][r["case"]["kind"]] = cov["case_kinds"].get(r["case"]["kind"], 0) + 1
    if not replay and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
                       "coverage": cov, "wall_s": round(time.time() - t0, 2),
                       "violations": len(fresh), "violation_list": [{"key": k, "n": len(v), "msg": v[0]["msg"]} for k, v, _ in fresh],
                       "known_findings_seen": [k for k, _, _ in seen_known]}, f, indent=1)
    print("%s tier=%s seed=%d: %d cases, %d distinct, %d observations, %d violation(s), %.1f s"
          % (pid, tier, seed, len(results), len(fps), sum(oracles.values()), len(fresh), time.time() - t0))
    if os.environ.get("RFV_VERBOSE"):
        print(json.dumps({k: cov[k] for k in ("observations_per_oracle", "worst_fraction_of_tolerance", "case_kinds", "monitor_events")}, indent=1))
        for r in sorted(results, key=lambda r: -r["t"])[:6]:
            print("  slow %.1f s" % r["t"], json.dumps(jsonable(r["case"]))[:200])
    if rc == 0 and (errors or missing):
        for e in errors[:5]:
            print("INCONCLUSIVE:", e)
        if missing:
            print("INCONCLUSIVE: oracles that observed nothing:", missing)
        return 3
    if errors:
        print("also:", errors[0][-300:])
    return rc
