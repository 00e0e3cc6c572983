"""Runtime-monitoring core: scenario dispatch, monitors, verdicts, evidence.

A property module exposes

    ID          property id
    RULE        what counts as one distinct, non-trivial observation
    scenarios(tier, seed) -> list of dicts {"name": str, "fn": str, ...params}
    FNS         {"fn": callable(params, mon)}

Every scenario runs the real code in a worker process while the monitor
object `mon` compares what it observes with an oracle.  A scenario that raises
out of the code under test, exhausts its CPU budget, or kills its interpreter
is itself an observation (a violation of the clause "completes").
"""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT = 240.0   # CPU seconds for one scenario before it counts as hung


class ScenarioTimeout(BaseException):
    pass


class HarnessError(Exception):
    """Something about the harness itself: never reported as a violation."""


def jsonable(x, depth=0):
    import numbers
    if depth > 4:
        return repr(x)[:200]
    if isinstance(x, (str, bool)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return jsonable(x[()], depth + 1)
    if isinstance(x, np.ndarray) and x.size > 12:
        return {"array": list(x.shape), "dtype": str(x.dtype),
                "head": [jsonable(v) for v in np.asarray(x).ravel()[:6]]}
    if isinstance(x, (list, tuple, np.ndarray)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    return repr(x)[:300]


def plain(x):
    """Plain float ndarray from a Quantity / array / list."""
    if hasattr(x, "unit") and hasattr(x, "value"):
        x = x.value
    return np.asarray(x)


class Mon(object):
    """Collects the observations of one scenario."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.evals = 0
        self.sigs = set()
        self.viol = []
        self.events = {}
        self.sample = None
        self.skips = []

    # -- observations -----------------------------------------------------
    def ev(self, key, n=1):
        self.events[key] = self.events.get(key, 0) + n

    def _seen(self, clause, value):
        self.evals += 1
        self.ev(clause)
        try:
            a = np.ascontiguousarray(plain(value))
            if a.dtype.kind in "fc":
                with np.errstate(all="ignore"):
                    a = np.asarray(a, dtype=complex if a.dtype.kind == "c"
                                   else float)
                    m = np.nanmax(np.abs(a)) if a.size else 0
                    if np.isfinite(m) and m > 0 and a.size > 2:
                        a = np.round(a / m, 6)
                    a = a + 0.0
            h = hashlib.md5(repr(a.shape).encode() + a.tobytes()).hexdigest()[:12]
        except Exception:
            h = hashlib.md5(repr(value).encode()).hexdigest()[:12]
        self.sigs.add("%s/%s/%s" % (self.fn, clause, h))
        if self.sample is None:
            self.sample = {"scenario": self.name, "clause": clause,
                           "observed": jsonable(value)}

    def fail(self, clause, **detail):
        if len(self.viol) < 12:
            self.viol.append({"clause": clause, "detail": jsonable(detail)})

    def ok(self, clause, cond, observed=None, **detail):
        self._seen(clause, observed if observed is not None else
                   (bool(np.all(cond)), sorted(detail.items(), key=str)
                    if detail else 0))
        if not bool(np.all(cond)):
            self.fail(clause, observed=observed, **detail)
            return False
        return True

    def close(self, clause, got, want, rtol=1e-7, floor=1e-10, atol=0.0,
              nan="same", **detail):
        """Element-wise agreement; NaN pattern must match (nan='same')."""
        g = plain(got)
        w = plain(want)
        self._seen(clause, g)
        if g.shape != w.shape:
            self.fail(clause, why="shape", got=g.shape, want=w.shape, **detail)
            return False
        if g.dtype.kind not in "fciub" or w.dtype.kind not in "fciub":
            good = bool(np.all(g == w))
            if not good:
                self.fail(clause, got=g, want=w, **detail)
            return good
        g = g.astype(complex if g.dtype.kind == "c" else float)
        w = w.astype(complex if w.dtype.kind == "c" else float)
        gn, wn = np.isnan(g), np.isnan(w)
        if nan == "same" and not np.array_equal(gn, wn):
            idx = np.argwhere(gn != wn)
            self.fail(clause, why="nan pattern", n=len(idx),
                      at=idx[0] if len(idx) else None, got=g, want=w, **detail)
            return False
        use = ~(gn | wn)
        gi, wi = np.isinf(g) & use, np.isinf(w) & use
        if not np.array_equal(gi, wi) or np.any(g[gi] != w[wi]):
            self.fail(clause, why="inf pattern", got=g, want=w, **detail)
            return False
        use &= ~wi
        if not use.any():
            return True
        d = np.abs(g[use] - w[use])
        m = np.max(np.abs(w[use]))
        lim = rtol * np.abs(w[use]) + floor * m + atol
        bad = d > lim
        if bad.any():
            k = int(np.argmax(d / np.where(lim > 0, lim, 1e-300)))
            pos = np.argwhere(use)[k] if w.ndim else ()
            self.fail(clause, why="value", nbad=int(bad.sum()), of=int(bad.size),
                      at=pos, got=g[use][k], want=w[use][k],
                      maxabs=float(d.max()), **detail)
            return False
        return True

    def raises(self, clause, exc, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except exc as e:
            self._seen(clause, type(e).__name__)
            return True
        except Exception as e:
            self._seen(clause, type(e).__name__)
            self.fail(clause, why="other exception", got=repr(e))
            return False
        self._seen(clause, "returned")
        self.fail(clause, why="accepted instead of raising", got=repr(r)[:200])
        return False

    def skip(self, why):
        self.skips.append(why)


# ---------------------------------------------------------------------------

def _alarm(signum, frame):
    raise ScenarioTimeout()


def run_scenario(mod, sc):
    mon = Mon(sc["name"], sc["fn"])
    fn = mod.FNS[sc["fn"]]
    t0 = time.time()
    np.random.seed(20240229 % 2**31)
    os.environ["TZ"] = "UTC"
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, float(sc.get("cpu", CPU_LIMIT)))
    out = sys.stdout
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(sc, mon)
    except ScenarioTimeout:
        mon.evals += 1
        mon.fail("completes", why="no result within %s CPU s" %
                 sc.get("cpu", CPU_LIMIT))
    except HarnessError as e:
        return {"name": sc["name"], "harness_error": traceback.format_exc()}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        mon.evals += 1
        mon.fail("completes", why="%s: %s" % (type(e).__name__, str(e)[:500]),
                 traceback=traceback.format_exc()[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        sys.stdout = out
        devnull.close()
        try:
            plt = sys.modules.get("matplotlib.pyplot")
            if plt is not None:
                plt.close("all")
        except Exception:
            pass
    return {"name": sc["name"], "evals": mon.evals, "sigs": sorted(mon.sigs),
            "viol": mon.viol, "events": mon.events, "sample": mon.sample,
            "skips": mon.skips, "wall": time.time() - t0}


def _worker(modname, scens, counter, path):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(modname)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(null, 2)
    f = open(path, "a")
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(scens):
            break
        f.write(json.dumps({"start": i}) + "\n")
        f.flush()
        r = run_scenario(mod, scens[i])
        f.write(json.dumps({"end": i, "r": r}) + "\n")
        f.flush()
    f.close()
    os._exit(0)


def run_all(modname, scens, nproc, deadline):
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    tmp = tempfile.mkdtemp(prefix="vh_")
    results = {}
    started = {}
    procs = {}
    k = 0
    crashed = []
    timed_out = False

    def spawn():
        nonlocal k
        path = os.path.join(tmp, "w%d" % k)
        p = ctx.Process(target=_worker, args=(modname, scens, counter, path))
        p.start()
        procs[k] = (p, path)
        k += 1

    try:
        for _ in range(min(nproc, max(1, len(scens)))):
            spawn()
        live = set(procs)
        while live:
            time.sleep(0.05)
            if time.time() > deadline and not timed_out:
                timed_out = True
                with counter.get_lock():
                    counter.value = len(scens)   # stop handing out work
                grace = time.time() + 60
            if timed_out and time.time() > grace:
                for j in live:
                    procs[j][0].kill()
            for j in list(live):
                p, path = procs[j]
                if p.is_alive():
                    continue
                p.join()
                live.discard(j)
                begun, ended = None, set()
                for line in open(path) if os.path.exists(path) else []:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        begun = d["start"]
                    else:
                        ended.add(d["end"])
                        results[d["end"]] = d["r"]
                if p.exitcode != 0 and begun is not None and begun not in ended:
                    if not timed_out:
                        crashed.append((begun, p.exitcode))
                        if len(crashed) < 40:
                            spawn()
                            live.add(k - 1)
    finally:
        for p, path in procs.values():
            if p.is_alive():
                p.kill()
        for f in glob.glob(os.path.join(tmp, "w*")):
            os.remove(f)
        os.rmdir(tmp)
    for i, code in crashed:
        if code == -9:     # killed from outside (memory): no verdict
            results[i] = {"name": scens[i]["name"],
                          "harness_error": "worker killed by SIGKILL"}
        else:
            results[i] = {"name": scens[i]["name"], "evals": 1, "sigs": [],
                          "viol": [{"clause": "completes", "detail":
                                    "interpreter died with status %s" % code}],
                          "events": {}, "sample": None, "skips": [],
                          "wall": 0}
    return results, timed_out


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [d for d in data.get("findings", []) if d["property"] == pid]


def write_replay(pid, sc, res):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in sc["name"])
    path = os.path.join(d, "%s-%s.json" % (pid, safe[:120]))
    with open(path, "w") as f:
        json.dump({"property": pid, "scenario": sc, "violations": res["viol"],
                   "how": "bash /verif/check.sh %s --replay %s" % (pid, path)},
                  f, indent=1)
    return path


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of scenario names")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--nproc", type=int, default=int(
        os.environ.get("VERIF_NPROC", "8")))
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.path.insert(0, REPO)
    modname = "harness.props.%s" % a.pid.lower()
    mod = importlib.import_module(modname)
    if hasattr(mod, "setup"):
        mod.setup(a.tier)
    import turbustat
    where = os.path.realpath(turbustat.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print("harness: turbustat imported from %s" % where)
        return 2
    if a.replay:
        scens = [json.load(open(a.replay))["scenario"]]
    else:
        scens = mod.scenarios(a.tier, a.seed)
        names = [s["name"] for s in scens]
        assert len(set(names)) == len(names), \
            [n for n in names if names.count(n) > 1][:3]
    if a.only:
        scens = [s for s in scens if a.only in s["name"]]
    if a.list:
        for s in scens:
            print(s["name"])
        return 0
    # Longest first would need timings; a fixed shuffle spreads the load.
    budget = 780 if a.tier == "quick" else float(
        os.environ.get("VERIF_BUDGET", "3000"))
    results, timed_out = run_all(modname, scens, a.nproc, t0 + budget)

    evals, sigs, events, samples, skips = 0, set(), {}, [], 0
    herr, viol = [], []
    slow = []
    for i, sc in enumerate(scens):
        r = results.get(i)
        if r is None:
            continue
        if "harness_error" in r:
            herr.append(r)
            continue
        evals += r["evals"]
        sigs.update(r["sigs"])
        skips += len(r["skips"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        if r["sample"] is not None and len(samples) < 8:
            samples.append(json.dumps(r["sample"])[:600])
        if r["viol"]:
            viol.append((sc, r))
        slow.append((r["wall"], sc["name"]))
    ran = len([i for i in results])
    known = load_known(a.pid)
    new = []
    seen_known = {}
    for sc, r in viol:
        rest = []
        for v in r["viol"]:
            hit = [d for d in known if d["scenario"] == sc["name"] and
                   d["clause"] == v["clause"]]
            if hit:
                seen_known[hit[0]["id"]] = hit[0]
            else:
                rest.append(v)
        if rest:
            new.append((sc, dict(r, viol=rest)))
    for d in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (a.pid, d["what"]))
    wall = time.time() - t0
    if not a.only and not a.replay:
        ev = {"property": a.pid, "tier": a.tier, "seed": a.seed,
              "level": "exploration",
              "coverage": {
                  "evaluations": int(evals),
                  "distinct_nontrivial": len(sigs),
                  "rule": mod.RULE,
                  "samples": samples[:8],
                  "scenarios_planned": len(scens),
                  "scenarios_run": ran,
                  "stopped_by_time_budget": timed_out,
                  "oracle_events_by_clause": dict(sorted(events.items())),
                  "skipped_preconditions": skips,
                  "known_findings_seen": len(seen_known)},
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "numpy, scipy, astropy, spectral-cube, statsmodels and "
                  "scikit-learn compute what they document"],
              "wall_s": round(wall, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "%s.json" % a.pid)
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    print("%s tier=%s seed=%d scenarios=%d/%d oracle evaluations=%d "
          "distinct=%d wall=%.1fs" % (a.pid, a.tier, a.seed, ran, len(scens),
                                      evals, len(sigs), wall))
    if a.v:
        for w, n in sorted(slow)[-8:]:
            print("  %.1fs %s" % (w, n))
        for k, v in sorted(events.items()):
            print("  %6d %s" % (v, k))
    nshow = int(os.environ.get("VERIF_SHOW", "4"))
    for sc, r in new[:nshow]:
        path = write_replay(a.pid, sc, r)
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        for v in r["viol"][:3]:
            print("   %s: %s: %s" % (sc["name"], v["clause"],
                                     json.dumps(v["detail"])[
                                         :1500 if a.v else 400]))
    if len(new) > nshow:
        print("   ... %d more violating scenarios" % (len(new) - nshow))
    if new:
        return 1
    if herr:
        print("harness error (no verdict) in %d scenarios" % len(herr))
        print(herr[0]["name"], herr[0]["harness_error"][-1500:])
        return 2
    if evals == 0:
        print("nothing observed: no verdict")
        return 2
    return 0
