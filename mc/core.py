"""Small exhaustive-exploration engine shared by every check.

A check partitions a *finite, explicitly bounded* space of behaviours (histories of
operations, lattices of configurations and inputs, trees of environment answers) into
work units.  ``run_unit`` explores one unit completely against the real code in
/repo/src and returns how many states / transitions it covered, together with every
disagreement with the oracle.  Nothing is sampled: the units of a tier are always all run,
and the seed is only used to pick which representative states are printed as samples.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("HALOMOD_REPO", "/repo"))

UNIT_TIMEOUT = int(os.environ.get("VERIF_UNIT_TIMEOUT", "240"))


class Result:
    """What one work unit covered."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []  # (key, what, detail)
        self.samples = []
        self.counters = {}

    def fail(self, key, what, **detail):
        self.violations.append((str(key), str(what), detail))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n


def isolated(fn):
    """Run fn in a forked child of this (pristine) process and return its pickled result."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("exc", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        return ("exc", "child process died")
    return pickle.loads(data)


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("unit exceeded its time limit")


def _init_worker():
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    # stdout belongs to the driver: the VIOLATION / KNOWN-FINDING lines are a protocol.
    sys.stdout = open(os.devnull, "w")


_CHECK = None


def _run_one(args):
    idx, unit, tier = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_TIMEOUT)
    t0 = time.time()
    try:
        res = _CHECK.run_unit(unit, tier)
    except Exception as e:  # an escape from the code under test on a legal behaviour
        res = Result()
        res.states = 1
        res.fail(
            f"exception:{getattr(_CHECK, 'unit_key', str)(unit)}",
            f"{type(e).__name__}: {e}",
            traceback=traceback.format_exc()[-3000:],
        )
    finally:
        signal.alarm(0)
    res.wall = time.time() - t0
    return idx, res


def known_findings(pid):
    """Entries of known_findings.txt: 'finding: property=<id> key=<key> :: <text>'."""
    out = {}
    p = VERIF / "known_findings.txt"
    if not p.exists():
        return out
    for line in p.read_text().splitlines():
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        head, _, text = line[len("finding: ") :].partition(" :: ")
        fields = dict(f.split("=", 1) for f in head.split(" ", 1))
        if fields.get("property") == pid:
            out[fields["key"].strip()] = text.strip()
    return out


def jsonable(x):
    try:
        import numpy as np

        if isinstance(x, np.ndarray):
            return [jsonable(v) for v in x.tolist()][:40]
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def run_check(check, tier, seed, only=None):
    """Explore every unit; write evidence and replay files; return the exit code."""
    global _CHECK
    _CHECK = check
    t0 = time.time()
    units = check.units(tier) if only is None else only
    nproc = min(int(os.environ.get("VERIF_PROCS", "8")), max(1, len(units)))
    results = [None] * len(units)
    jobs = [(i, u, tier) for i, u in enumerate(units)]
    if hasattr(check, "prepare"):
        check.prepare(tier)
    if nproc == 1 or os.environ.get("VERIF_SERIAL"):
        real = sys.stdout
        _init_worker()
        for j in jobs:
            i, r = _run_one(j)
            results[i] = r
        sys.stdout = real
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, initializer=_init_worker, maxtasksperchild=None) as pool:
            for i, r in pool.imap_unordered(_run_one, jobs, chunksize=1):
                results[i] = r
    total = Result()
    for r in results:
        total.states += r.states
        total.transitions += r.transitions
        total.traces += r.traces
        for k, v in r.counters.items():
            total.count(k, v)
    viol = []
    for u, r in zip(units, results):
        for key, what, detail in r.violations:
            viol.append((key, what, detail, u))

    known = known_findings(check.id)
    new, seen_known = [], {}
    for v in viol:
        if v[0] in known:
            seen_known.setdefault(v[0], v)
        else:
            new.append(v)
    if only is None:
        for key in seen_known:
            print(f"KNOWN-FINDING: property={check.id} {key} :: {known[key]}")
    rdir = VERIF / "replays"
    rc = 0
    if new:
        rdir.mkdir(exist_ok=True)
        byk = {}
        for v in new:
            byk.setdefault(v[0], []).append(v)
        for n, (key, vs) in enumerate(byk.items()):
            key, what, detail, u = vs[0]
            h = hashlib.sha1(f"{check.id}{key}".encode()).hexdigest()[:10]
            path = rdir / f"{check.id}-{h}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": check.id,
                        "key": key,
                        "what": what,
                        "unit": jsonable(u),
                        "detail": jsonable(detail),
                        "occurrences": len(vs),
                        "rerun": f"bash /verif/run.sh {check.id} --replay {path}",
                    },
                    indent=1,
                )
            )
            if n < int(os.environ.get("MC_MAXPRINT", "25")):
                print(f"VIOLATION property={check.id} replay={path}")
                print(f"  {key} :: {what[:400]}")
        if len(byk) > 25:
            print(f"  ... and {len(byk) - 25} more distinct violations")
        rc = 1
    wall = time.time() - t0
    rng = random.Random(seed)
    allsamples = [s for r in results for s in r.samples]
    rng.shuffle(allsamples)
    if only is None:
        cov = {
            "states": int(total.states),
            "transitions": int(max(total.transitions, 0)),
            "traces_validated_against_impl": int(total.traces),
            "samples": allsamples[:8] or ["(none)"],
            "exhaustive": True,
            "bounds": check.bounds(tier),
            "units": len(units),
            "meaning": check.rule,
            "counters": total.counters,
            "slowest_unit_s": round(max((r.wall for r in results), default=0), 2),
        }
        ev = {
            "property": check.id,
            "tier": tier,
            "seed": seed,
            "level": check.level,
            "coverage": cov,
            "wall_s": round(wall, 2),
            "assumptions": check.assumptions,
            "violations": len({v[0] for v in new}),
        }
        edir = VERIF / "evidence"
        edir.mkdir(exist_ok=True)
        (edir / f"{check.id}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
    print(
        f"{check.id} [{tier}] units={len(units)} states={total.states} "
        f"transitions={total.transitions} traces={total.traces} violations={len(new)} "
        f"known={len(seen_known)} wall={wall:.1f}s counters={total.counters}"
    )
    return rc
