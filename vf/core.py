"""Shared machinery: monitored case runner, evidence writer, replay files, known findings.

A check module (vf/checks/pNN.py) provides
    ID        property id
    RULE      one sentence: what counts as a distinct non-trivial observation
    plan(tier) -> list[dict]       fixed cases, always run (JSON-able)
    N         {"quick": n, "thorough": n}  number of seeded random cases
    gen(rng, i) -> dict            one random case (JSON-able)
    run(ctx, case)                 drive the real code under monitors; ctx.check(...) judges
Everything a case needs is in the case dict, so a violation replays from its file alone.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
DATA = os.path.join(SRC, "ecoengine", "data")

CASE_TIMEOUT_S = 200


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class CaseTimeout(BaseException):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    """Counts what the monitors observed and records violations of one case."""

    MAX_VIOL = 3

    def __init__(self, pid):
        self.pid = pid
        self.evals = 0
        self.events = Counter()
        self.distinct = set()
        self.violations = []
        self.sample = None

    # -- observation accounting -------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] += n

    def seen(self, *key):
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    # -- judging ----------------------------------------------------------------
    def check(self, cond, key, msg, *a):
        self.evals += 1
        if cond:
            return True
        text = msg() if callable(msg) else (msg % a if a else msg)
        self.violations.append((key, text))
        if len(self.violations) >= self.MAX_VIOL:
            raise Violation(key, text)
        return False

    def close(self, got, want, key, what, rel=1e-6, abs_=1e-7):
        self.evals += 1
        ok = close(got, want, rel, abs_)
        if ok:
            return True
        text = f"{what() if callable(what) else what}: observed {got!r}, expected {want!r}"
        self.violations.append((key, text))
        if len(self.violations) >= self.MAX_VIOL:
            raise Violation(key, text)
        return False

    def closelist(self, got, want, key, what, rel=1e-6, abs_=1e-7):
        got, want = list(got), list(want)
        if not self.check(len(got) == len(want), key, "%s: observed %d values, expected %d",
                          what, len(got), len(want)):
            return False
        for i, (g, w) in enumerate(zip(got, want)):
            if not close(g, w, rel, abs_):
                return self.close(g, w, key, f"{what} [index {i}]", rel, abs_)
        self.evals += len(got)
        return True

    def raises(self, fn, exc, key, what):
        """fn() must raise one of exc; any other outcome is a violation."""
        self.evals += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:  # wrong kind of failure
            return self.check(False, key, lambda: f"{what}: raised {type(e).__name__} ({e}) instead of {exc}")
        return self.check(False, key, lambda: f"{what}: accepted, returned {str(r)[:80]}")


def close(got, want, rel=1e-6, abs_=1e-7):
    if want is None or got is None:
        return got is None and want is None
    try:
        got = float(got)
        want = float(want)
    except (TypeError, ValueError):
        return got == want
    if math.isnan(got) or math.isnan(want):
        return math.isnan(got) and math.isnan(want)
    if got == want:
        return True
    if math.isinf(got) or math.isinf(want):
        return False
    return abs(got - want) <= abs_ + rel * max(abs(got), abs(want))


# ------------------------------------------------------------------------------
def load_check(pid):
    return importlib.import_module(f"vf.checks.{pid.lower()}")


def prepare_import():
    """Import the code under test from the current working tree of REPO, never from elsewhere."""
    if sys.path[:1] != [SRC]:
        sys.path.insert(0, SRC)
    import ecoengine
    where = os.path.realpath(os.path.dirname(ecoengine.__file__))
    want = os.path.realpath(os.path.join(SRC, "ecoengine"))
    if where != want:
        raise SystemExit(f"ecoengine was imported from {where}, not {want}")


def case_rng(pid, seed, i):
    return random.Random(f"{pid}/{seed}/{i}")


def materialise(mod, seed, item):
    """An item is a fixed case or the number of a seeded random one, generated where it runs."""
    return item if isinstance(item, dict) else mod.gen(case_rng(mod.ID, seed, item), item)


def run_one(mod, case):
    ctx = Ctx(mod.ID)

    def on_alarm(*_):
        raise CaseTimeout()

    # CPU time of this process, not wall-clock time: a loaded machine is no verdict
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "CASE_TIMEOUT_S", CASE_TIMEOUT_S))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(ctx, case)
    except Violation:
        pass
    except CaseTimeout:
        ctx.violations.append(("hang", "no result within the case limit of CPU time"))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)
                      if "ecoengine" in f.filename), None)
        if where is None and isinstance(e, (IndexError, KeyError, TypeError, ValueError, AttributeError, ZeroDivisionError, OverflowError)):
            # the code under test handed the monitor something no monitor expects (a series too short, a missing
            # entry, None for a number): on the unchanged tree this never happens
            last = tb[-1]
            ctx.violations.append((f"malformed-observation:{type(e).__name__}:{os.path.basename(last.filename)}:{last.name}",
                                   f"observation of unexpected form: {type(e).__name__}: {e} in {os.path.basename(last.filename)}:{last.lineno} ({last.line})"))
        elif where is None:
            # harness error: not a verdict about the code under test
            ctx.violations.append(("harness-error", "HARNESS " + traceback.format_exc()[-1500:]))
        else:
            ctx.violations.append((f"exception:{type(e).__name__}:{where}",
                                   f"unexpected {type(e).__name__}: {e} (in {where})"))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return ctx


def _worker(args):
    pid, seed, items = args
    prepare_import()
    mod = load_check(pid)
    out = {"evals": 0, "events": Counter(), "distinct": set(), "viol": [], "samples": [], "cases": 0}
    devnull = open(os.devnull, "w")
    saved = sys.stdout
    sys.stdout = devnull
    try:
        for item in items:
            case = materialise(mod, seed, item)
            ctx = run_one(mod, case)
            out["cases"] += 1
            out["evals"] += ctx.evals
            out["events"].update(ctx.events)
            out["distinct"] |= ctx.distinct
            for key, msg in ctx.violations[:3]:
                out["viol"].append({"key": key, "msg": msg, "case": case})
            if ctx.sample is not None and len(out["samples"]) < 1:
                out["samples"].append({"case": jsonable(case), "observed": jsonable(ctx.sample)})
    finally:
        sys.stdout = saved
        devnull.close()
    return out


def _serve(conn):
    """Child: run the chunks the parent sends until it says stop."""
    while True:
        task = conn.recv()
        if task is None:
            return
        conn.send(_worker(task))


def _spread(chunks, jobs, absorb, left, enough):
    """Run the chunks on forked workers; True when all ran. (Not multiprocessing.Pool: its terminate() can deadlock, and a
    worker that dies would leave the parent waiting.)"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = list(chunks)[::-1]
    live = {}

    def spawn():
        here, there = ctx.Pipe()
        pr = ctx.Process(target=_serve, args=(there,), daemon=True)
        pr.start()
        there.close()
        live[here] = [pr, None]
        give(here)

    def give(conn):
        task = todo.pop() if todo else None
        live[conn][1] = task
        try:
            conn.send(task)
        except OSError:
            pass
        if task is None:
            drop(conn)

    def drop(conn):
        pr, _ = live.pop(conn)
        conn.close()
        pr.join(2)

    for _ in range(min(jobs, len(todo))):
        spawn()
    done = True
    while live:
        ready = wait(list(live), timeout=max(1.0, left()))
        if not ready:
            done = False
            break
        for conn in ready:
            try:
                absorb(conn.recv())
            except (EOFError, OSError):
                pr, task = live.pop(conn)
                conn.close()
                pr.join(2)
                pid, seed, items = task
                if len(items) > 1:          # find the case that ends the process
                    todo.extend((pid, seed, [c]) for c in items)
                else:
                    absorb({"evals": 0, "events": Counter(), "distinct": set(), "samples": [], "cases": 1,
                            "viol": [{"key": "process-died", "msg": f"the process ended (exit code {pr.exitcode}) in this case", "case": materialise(load_check(pid), seed, items[0])}]})
                if todo:
                    spawn()
                continue
            give(conn)
        if enough() or left() < 0:
            done = not todo and not live
            break
    for pr, _ in live.values():
        pr.kill()
    for pr, _ in list(live.values()):
        pr.join(2)
    return done


def known_findings(pid):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = dict(p.split("=", 1) for p in line.split() if "=" in p and p.split("=")[0] in ("property", "key"))
                if parts.get("property") == pid:
                    res.append((parts.get("key"), line.split(" -- ", 1)[-1]))
    return res


def run_check(pid, tier, seed, budget_s, jobs=None):
    t0 = time.time()
    prepare_import()
    mod = load_check(pid)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    fixed = list(mod.plan(tier))
    n_fixed = len(fixed)
    n_rand = mod.N[tier]
    items = fixed + list(range(n_rand))
    # small chunks, fixed order: the same seed always runs the same cases
    chunk = max(1, min(getattr(mod, "CHUNK", 25), len(items) // (jobs * 3) + 1))
    chunks = [(pid, seed, items[k:k + chunk]) for k in range(0, len(items), chunk)]
    tot = {"evals": 0, "events": Counter(), "distinct": set(), "viol": [], "samples": [], "cases": 0}
    truncated = False

    def absorb(o):
        tot["evals"] += o["evals"]
        tot["events"].update(o["events"])
        tot["distinct"] |= o["distinct"]
        tot["viol"].extend(o["viol"])
        tot["samples"].extend(o["samples"])
        tot["cases"] += o["cases"]

    if jobs == 1:
        for c in chunks:
            if time.time() - t0 > budget_s:
                truncated = True
                break
            absorb(_worker(c))
    else:
        truncated = not _spread(chunks, jobs, absorb, lambda: budget_s - (time.time() - t0), lambda: len(tot["viol"]) > 60)
    return finish(mod, tier, seed, tot, n_fixed, n_rand, truncated, time.time() - t0)


def finish(mod, tier, seed, tot, n_fixed, n_rand, truncated, wall):
    pid = mod.ID
    harness = [v for v in tot["viol"] if v["key"] == "harness-error"]
    known = known_findings(pid)
    hits, fresh = {}, []
    for v in tot["viol"]:
        if v["key"] == "harness-error":
            continue
        k = next((k for k, _ in known if k == v["key"]), None)
        if k is not None:
            hits[k] = v
        else:
            fresh.append(v)
    # one line per distinct finding
    uniq = {}
    for v in fresh:
        uniq.setdefault(v["key"], v)
    replays = []
    if uniq:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        for v in list(uniq.values())[:10]:
            h = hashlib.sha1(json.dumps(jsonable(v["case"]), sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(d, f"{pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "key": v["key"], "message": v["msg"], "case": jsonable(v["case"])}, f, indent=1)
            replays.append((v, path))
    samples = [s for s in tot["samples"]][:4]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evals"],
            "distinct_nontrivial": len(tot["distinct"]),
            "rule": mod.RULE,
            "samples": samples,
            "cases_run": tot["cases"], "fixed_cases": n_fixed, "random_cases": n_rand,
            "events": dict(sorted(tot["events"].items())),
            "truncated_by_budget": truncated,
            "violation_details": [{"key": v["key"], "message": v["msg"], "replay": p} for v, p in replays],
        },
        "wall_s": round(wall, 2),
        "violations": len(uniq),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in known:
        if k in hits:
            print(f"KNOWN-FINDING: property={pid} {v}")
    for v, p in replays:
        print(f"  {v['key']}: {v['msg'][:400]}")
        print(f"VIOLATION property={pid} replay={p}")
    print(f"{pid} {tier} seed={seed}: {tot['cases']} cases, {tot['evals']} monitor evaluations, "
          f"{len(tot['distinct'])} distinct non-trivial observations, {wall:.1f}s"
          + (" (stopped early)" if truncated else ""))
    if harness:
        print(harness[0]["msg"], file=sys.stderr)
        print(json.dumps(jsonable(harness[0]["case"]))[:2000], file=sys.stderr)
        if not replays:
            return 2
    if not replays and tot["evals"] == 0:
        print("no monitor evaluation took place", file=sys.stderr)
        return 2
    return 1 if replays else 0


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    if a.replay:
        prepare_import()
        mod = load_check(pid)
        case = json.load(open(a.replay))["case"]
        ctx = run_one(mod, case)
        for k, m in ctx.violations:
            print(f"  {k}: {m}")
        print("events", dict(ctx.events), "evaluations", ctx.evals)
        if ctx.violations:
            print(f"VIOLATION property={pid} replay={a.replay}")
        return 1 if ctx.violations else 0
    budget = a.budget or (420 if a.tier == "quick" else 780)
    return run_check(pid, a.tier, a.seed, budget, a.jobs)
