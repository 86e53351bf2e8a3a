"""H16: populated catalogues, for every outcome of the random draws."""

from __future__ import annotations

import itertools
import json
import os
import subprocess
import sys

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel, concentration, grid, hod as hodmod, profiles, tools

id = "H16"
level = "model_checking"
technique = (
    "stateless exploration of the real populate() under a controlled random generator: the tree of all outcomes of the "
    "draws (central yes/no per halo, 0..N satellites per halo, representative radii and directions) is enumerated "
    "exhaustively and every resulting catalogue is checked"
)
level_note = (
    "Exhaustive over central/satellite outcomes for up to 3 (quick) or 4 haloes and satellite counts up to 3 (4); "
    "radii are a fixed set of quantiles and directions a fixed set. Parallel placement is run with a forking stand-in for pathos."
)
rule = "state = one complete catalogue ; transition = one random draw ; trace = one run of populate"
assumptions = ["numpy's generator draws binomial, Poisson, uniform and normal numbers as documented"]

DIRS = np.array([[1, 0, 0], [0, -1, 0], [0, 0, 1], [-1, 1, 1], [0.3, -2, 0.1], [-5, -4, 3.0]])
QUANT = np.array([0.5, 1e-4, 0.93, 0.9999, 0.03, 0.25, 0.75])


class Scripted(np.random.Generator):
    """A generator whose discrete draws follow a script; records what it was asked for."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(1))

    def __init__(self, script=(), nmax=2):
        super().__init__(np.random.PCG64(1))
        self.script = list(script)
        self.nmax = nmax
        self.sizes = []  # number of alternatives at each choice point
        self.log = []
        self.iq = 0
        self.id_ = 0
        self.quant = []

    def _choose(self, n):
        i = len(self.sizes)
        self.sizes.append(n)
        return self.script[i] if i < len(self.script) else 0

    def binomial(self, n, p, size=None):
        p = np.asarray(p, float)
        if np.any(p < 0) or np.any(p > 1) or np.any(np.isnan(p)):
            raise ValueError("p < 0, p > 1 or p contains NaNs")
        P = np.broadcast_to(p, p.shape if size is None else size)
        self.log.append(("binomial", np.array(P)))
        out = np.array([0 if q == 0 else n if q == 1 else self._choose(n + 1) for q in P.ravel()], dtype=np.int64).reshape(P.shape)
        return out if out.ndim else out[()]

    def poisson(self, lam=1.0, size=None):
        lam = np.asarray(lam, float)
        if np.any(lam < 0) or np.any(np.isnan(lam)):
            raise ValueError("lam < 0 or lam contains NaNs")
        L = np.broadcast_to(lam, lam.shape if size is None else size)
        self.log.append(("poisson", np.array(L)))
        out = np.array([0 if q == 0 else self._choose(self.nmax + 1) for q in L.ravel()], dtype=np.int64).reshape(L.shape)
        return out if out.ndim else out[()]

    def _uniform(self, size):
        n = 1 if size is None else int(np.prod(size))
        v = QUANT[(self.iq + np.arange(n)) % len(QUANT)]
        self.iq += n
        self.quant.extend(v.tolist())
        return float(v[0]) if size is None else v.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._uniform(size)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._uniform(size)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        n = 1 if size is None else int(np.prod(size))
        k = max(1, n // 3)
        v = DIRS[(self.id_ + np.arange(k)) % len(DIRS)]
        self.id_ += k
        v = v.T if (np.ndim(size) and len(size) == 2 and size[0] == 3) else v
        v = np.resize(np.asarray(v, float).ravel(), n)
        return float(v[0]) if size is None else v.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def spawn(self, n):
        return [np.random.Generator(np.random.PCG64(i)) for i in range(n)]


def tree(run, nmax):
    """Depth-first enumeration of all scripts."""
    stack = [[]]
    while stack:
        s = stack.pop()
        rng = Scripted(s, nmax)
        yield rng, run(rng)
        for i in range(len(rng.sizes) - 1, len(s) - 1, -1):
            for v in range(1, rng.sizes[i]):
                stack.append((s + [0] * (i - len(s)) + [v]))


HODS = [
    ("Zehavi05", {}), ("Zehavi05", {"central": True}), ("Zheng05", {}), ("Zheng05", {"central": True}),
    ("Tinker05", {"central": True}), ("Tinker05", {}), ("Zehavi05Marked", {"logA": 0.6}), ("Zehavi05Marked", {"logA": -1.2, "central": True}),
    ("Contreras13", {}), ("Contreras13", {"central": True}), ("Geach12", {}), ("Zehavi05WithMax", {"M_max": 13.5}),
    ("Leauthaud11", {}), ("Leauthaud11", {"central": True}), ("Constant", {}), ("ContinuousPowerLaw", {}),
]
# ordinary groups; around the cut-offs; empty haloes; a single halo; unsorted with repeats
MASSES = {"mid": [3e12, 2e13, 6e14], "low": [1e10, 4e11, 9e11], "void": [1e9, 2e9], "one": [5e13], "rep": [4e14, 7e11, 4e14]}
PROFS = [
    "NFW", "Hernquist", "CoredNFW", "Einasto", "PowerLawWithExpCut", "Moore", "Constant", "GeneralizedNFW", "NFWInf",
    "HernquistInf", "MooreInf", "GeneralizedNFWInf",
]
CENT = np.array([[1.0, 2.0, 3.0], [50.0, 0.02, 99.9], [99.99, 60.0, 0.01], [10.0, 10.0, 10.0]])
EDGES = {"none": None, "float": 100.0, "int": 100, "pair": (0.0, 100.0), "pair-off": (30.0, 130.0), "pair-neg": [-60, 40],
         "pair-array": np.array([-20.0, 80.0]), "prism-off": ((10.0, 20.0, -300.0), (110.0, 130.0, -200.0)), "prism": np.array([[0, -50.0, 0], [100, 70.0, 120]])}


def bounds(tier):
    return {"hods": [h[0] + str(h[1]) for h in HODS], "masses": {k: len(v) for k, v in MASSES.items()}, "profiles": PROFS,
            "edges": list(EDGES), "satellites_per_halo": 3 if tier == "quick" else 4}


def units(tier):
    return (
        [("tree", i, s) for i in range(len(HODS)) for s in MASSES]
        + [("place", p) for p in PROFS]
        + [("model", i) for i in range(len(MODELS))]
        + [("edges", e) for e in EDGES]
        + [("pool", i) for i in range(2)]
    )


def make_profile(name="NFW"):
    return getattr(profiles, name)(concentration.Bullock01Power(ms=1e12))


def make_hod(i):
    n, p = HODS[i]
    p = dict(p)
    cls = getattr(hodmod, n)
    return cls(**p)


def counts(h, m):
    """Mean numbers of sources, per halo: centrals, and satellites given the outcome of the central."""
    nc = np.broadcast_to(np.asarray(h.nc(m), float), m.shape)
    ns = np.broadcast_to(np.asarray(h.ns(m), float), m.shape)
    return nc, ns


def check(res, key, h, m, centres, prof, rng, out, edges=None):
    """All laws of one catalogue."""
    pos, halo, ncen = out
    pos, halo = np.asarray(pos), np.asarray(halo)
    n = len(m)
    nc, ns = counts(h, m)
    central = bool(h._central)
    if pos.shape != (len(halo), 3) or not (0 <= ncen <= len(halo)):
        return res.fail(key, f"shapes: positions {pos.shape}, haloes {halo.shape}, {ncen} centrals")
    if len(halo) and (halo.min() < 0 or halo.max() >= n):
        return res.fail(key, f"labels {halo} out of range for {n} haloes")
    hc, hs = halo[:ncen], halo[ncen:]
    if len(set(hc.tolist())) != ncen:
        res.fail(key, f"a halo has two centrals: {hc}")
    if ncen and not np.allclose(pos[:ncen], centres[hc], rtol=0, atol=1e-9):
        res.fail(key, "centrals are not at the centres of their haloes")
    if np.any(nc[hc] <= 0):
        res.fail(key, f"central in a halo that cannot have one: {hc}")
    sure = {i for i in range(n) if nc[i] >= 1}
    if not sure <= set(hc.tolist()):
        res.fail(key, f"haloes {sure - set(hc.tolist())} have a mean of one central but got none")
    if central and not set(hs.tolist()) <= set(hc.tolist()):
        res.fail(key, f"central condition: satellites in haloes {set(hs.tolist()) - set(hc.tolist())} without central")
    if np.any(ns[hs] <= 0):
        res.fail(key, "satellites in a halo that cannot have any")
    # what was drawn is what is in the catalogue, with the model's mean counts
    b = [p for k, p in rng.log if k == "binomial"]
    q = [p for k, p in rng.log if k == "poisson"]
    drawn = {}
    if len(b) == 1 and len(q) == 1 and len(q[0]) in (n, ncen):
        p = np.broadcast_to(b[0], (n,))
        if not np.allclose(p, nc, rtol=1e-9):
            res.fail(key, f"centrals drawn with probabilities {p}, mean counts are {nc}")
        who = np.arange(n) if len(q[0]) == n else np.sort(hc)
        if len(q[0]) == n and central and ncen != n:
            who = np.arange(n)
        want = ns / np.where(nc > 0, nc, 1) if central else ns
        lam = q[0]
        ok = np.isin(who, hc) if central else np.ones(len(who), bool)
        if not np.allclose(lam[ok], want[who][ok], rtol=1e-9):
            res.fail(key, f"satellites drawn with means {lam[ok]}, the model's are {want[who][ok]}")
        # replay the script: number of centrals and satellites per halo
        it = iter(list(rng.script) + [0] * 99)
        cdraw = np.array([0 if x == 0 else 1 if x == 1 else next(it) for x in p])
        if set(np.flatnonzero(cdraw).tolist()) != set(hc.tolist()):
            res.fail(key, f"centrals were drawn for {np.flatnonzero(cdraw)}, the catalogue has them in {hc}")
        sdraw = {int(w): (0 if x == 0 else next(it)) for w, x in zip(who, lam)}
        have = {i: int(np.sum(hs == i)) for i in range(n)}
        for i in range(n):
            exp = sdraw.get(i, 0) if (not central or i in hc) else 0
            if have[i] != exp:
                res.fail(key, f"halo {i}: {exp} satellites drawn, {have[i]} in the catalogue")
    if len(hs):
        rv = prof.halo_mass_to_radius(m[hs])
        d = np.linalg.norm(wrap(pos[ncen:] - centres[hs], edges), axis=1)
        if np.any(d > rv * (1 + 1e-3)) or not np.all(np.isfinite(pos)):
            res.fail(key, f"satellites outside the virial radius: r/r_vir = {d / rv}")
        # radii follow the profile: same quantiles
        if len(rng.quant) == len(hs):
            c = prof.cm_relation(m[hs]) if prof.cm_relation is not None else None
            got = np.array([float(np.squeeze(prof.cdf(np.array([di / r]), c=np.array([ci]), m=np.array([mi]), coord="s"))) for di, r, ci, mi in zip(d, rv, c, m[hs])])
            if np.any(np.abs(got - np.array(rng.quant)) > 2e-3):
                res.fail(key, f"satellite radii enclose mass fractions {got}, drawn were {rng.quant}")
    if edges is not None:
        lo, hi = box(edges)
        if np.any(pos < lo - 1e-9) or np.any(pos > hi + 1e-9):
            res.fail(key, f"positions outside the periodic box: {pos[np.any((pos < lo) | (pos > hi), axis=1)]}")
    return None


def box(edges):
    if np.isscalar(edges):
        return np.zeros(3), np.full(3, float(edges))
    e = np.asarray(edges, float)
    return (np.full(3, e[0]), np.full(3, e[1])) if e.shape == (2,) else (e[0], e[1])


def wrap(d, edges):
    if edges is None:
        return d
    lo, hi = box(edges)
    L = hi - lo
    return d - L * np.round(d / L)


def run_tree(u, tier, res):
    _, i, s = u
    h = make_hod(i)
    m = np.array(MASSES[s])
    if tier != "quick" and s == "mid":
        m = np.array(MASSES[s] + [8e11])
    centres = CENT[: len(m)].copy()
    prof = make_profile()
    nmax = 3 if tier == "quick" else 4
    mm, cc = m.copy(), centres.copy()
    bad = 0
    for rng, out in tree(lambda g: attempt(lambda: tools.populate(centres, m, profile=prof, hodmod=h, rng=g)), nmax):
        res.states += 1
        res.traces += 1
        res.transitions += len(rng.sizes) + 1
        key = f"tree:{HODS[i][0]}:{json.dumps(HODS[i][1])}:{s}:{''.join(map(str, rng.script))}"
        if isinstance(out, Exception):
            res.fail(key, f"raises {type(out).__name__}: {out}")
            bad += 1
        else:
            check(res, key, h, m, centres, prof, rng, out)
        if not np.array_equal(m, mm) or not np.array_equal(centres, cc):
            res.fail(key, "populate changed its arguments")
            m[:], centres[:] = mm, cc
        if bad > 5:
            break
    res.sample({"hod": HODS[i][0], "masses": MASSES[s]})


def attempt(f):
    try:
        return f()
    except Exception as e:  # noqa: BLE001
        return e


def run_place(u, tier, res):
    """Placement of satellites in one halo: radii and directions."""
    name = u[1]
    prof = make_profile(name)
    for m, n, ctr, c in itertools.product((1e11, 3e13, 1e15), (0, 1, 7, 50), (None, np.array([3.0, -2.0, 1.0])), (None, 3.0, 11.0)):
        key = f"place:{name}:{m:.0e}:{n}:{ctr is not None}:{c}"
        rng = Scripted()
        res.states += 1
        res.traces += 1
        res.transitions += n
        out = attempt(lambda: np.asarray(prof.populate(n, m, c=c, centre=ctr, rng=rng)))
        if isinstance(out, Exception):
            res.fail(key, f"raises {type(out).__name__}: {out}")
            continue
        if out.shape != (n, 3):
            res.fail(key, f"shape {out.shape} for {n} tracers")
            continue
        if n == 0:
            continue
        d = out - (0 if ctr is None else ctr)
        r = np.linalg.norm(d, axis=1)
        rv = float(np.squeeze(prof.halo_mass_to_radius(m)))
        cc = float(np.squeeze(prof.cm_relation(m))) if c is None else c
        got = np.array([float(np.squeeze(prof.cdf(np.array([x / rv]), c=np.array([cc]), m=np.array([m]), coord="s"))) for x in r])
        if np.any(r > rv * (1 + 1e-3)):
            res.fail(key, f"outside the virial radius: {np.max(r / rv)}")
        if len(rng.quant) == n and np.any(np.abs(got - rng.quant) > 2e-3):
            res.fail(key, f"radii enclose mass fractions {got[:7]}, drawn were {rng.quant[:7]}")
        want = DIRS[np.arange(n) % len(DIRS)]
        want = want / np.linalg.norm(want, axis=1)[:, None]
        if rng.id_ == n and np.any(np.abs(d / r[:, None] - want) > 1e-9) and np.any(np.abs(d / r[:, None] + want) > 1e-9):
            res.fail(key, "directions are not those drawn")
    # every quantile of a fine grid maps to the radius enclosing that fraction
    q = np.linspace(1e-6, 1 - 1e-9, 4001)

    class Q(Scripted):
        def _uniform(self, size):
            return q.copy()

    for m in (1e11, 1e15):
        rng = Q()
        out = np.asarray(prof.populate(len(q), m, rng=rng))
        r = np.linalg.norm(out, axis=1)
        rv = float(np.squeeze(prof.halo_mass_to_radius(m)))
        c = np.array([float(np.squeeze(prof.cm_relation(m)))])
        got = np.squeeze(prof.cdf(r / rv, c=c, m=np.array([m]), coord="s"))
        res.states += 1
        res.transitions += len(q)
        if np.any(np.diff(r) < 0) or np.any(np.abs(got - q) > 2e-3) or r.max() > rv * 1.001:
            i = int(np.argmax(np.abs(got - q)))
            res.fail(f"place:{name}:{m:.0e}:quantiles", f"quantile {q[i]:.4g} is placed where the enclosed mass is {got[i]:.4g}")


MODELS = [
    dict(hod_model="Zheng05", hod_params={"central": True}),
    dict(hod_model="Zehavi05", tracer_profile_model="CoredNFW"),
    dict(hod_model="Zheng05", tracer_concentration_model="Ludlow16Empirical", z=1.0),
    dict(hod_model="Tinker05", tracer_profile_model="PowerLawWithExpCut", tracer_profile_params={"a": 0.3}, tracer_concentration_model="Bullock01Power"),
    dict(hod_model="Zehavi05Marked", hod_params={"logA": 0.7}, mdef_model="SOVirial"),
]


def run_model(u, tier, res):
    """Through a halo model: the tracer's own occupation, profile and concentration are used."""
    h = TracerHaloModel(**grid(**MODELS[u[1]]))
    m = np.array([4e12, 3e13, 6e14])
    c = h.tracer_concentration.cm(m, h.z)
    centres = CENT[:3].copy()
    prof = h.tracer_profile

    class P:  # the tracer profile with the tracer concentrations
        cm_relation = staticmethod(lambda x: h.tracer_concentration.cm(x, h.z))
        halo_mass_to_radius = staticmethod(prof.halo_mass_to_radius)
        cdf = staticmethod(prof.cdf)

    for rng, out in tree(lambda g: attempt(lambda: tools.populate(centres, m, halomodel=h, rng=g)), 2):
        res.states += 1
        res.traces += 1
        res.transitions += len(rng.sizes) + 1
        key = f"model:{u[1]}:{''.join(map(str, rng.script))}"
        if isinstance(out, Exception):
            res.fail(key, f"raises {type(out).__name__}: {out}")
            break
        check(res, key, h.hod, m, centres, P, rng, out)
    res.sample({"model": str(MODELS[u[1]]), "c": [float(x) for x in np.ravel(c)]})


def run_edges(u, tier, res):
    """Periodic boxes: satellites end up inside, at their distance from the halo."""
    edges = EDGES[u[1]]
    prof = make_profile()
    m = np.array([2e15, 9e14, 6e14])
    lo, hi = box(edges if edges is not None else 100.0)
    h = hodmod.Zehavi05()
    eps = [1e-3, 0.5]
    pts = [np.array(p) for p in itertools.product(*[[lo[j] + e if b else hi[j] - e for e in eps for b in (0, 1)] for j in range(3)])]
    for k, ctr in enumerate(pts):
        centres = np.array([ctr, (lo + hi) / 2, pts[(k + 7) % len(pts)]])
        for script in itertools.product((1, 2), repeat=3):
            rng = Scripted(script, 2)
            rng.id_ = k
            rng.iq = k % 5
            out = attempt(lambda: tools.populate(centres, m, profile=prof, hodmod=h, edges=edges, rng=rng))
            key = f"edges:{u[1]}:{k}:{''.join(map(str, script))}"
            res.states += 1
            res.traces += 1
            res.transitions += 3
            if isinstance(out, Exception):
                res.fail(key, f"raises {type(out).__name__}: {out}")
                return
            check(res, key, h, m, centres, prof, rng, out, edges)


POOL = r"""
import sys, json, os
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from mc.impl import tools, hod, profiles, concentration
import numpy as np
n = 60
g = np.random.default_rng(int(sys.argv[3]))
centres = 100 * g.random((n, 3)); m = 10 ** (13 + 2 * g.random(n))
h = hod.Zehavi05(central=bool(int(sys.argv[3]))); p = profiles.NFW(concentration.Bullock01Power(ms=1e12))
pos, halo, ncen = tools.populate(centres, m, profile=p, hodmod=h, rng=np.random.default_rng(3))
hs = halo[ncen:]; d = pos[ncen:] - centres[hs]; r = np.linalg.norm(d, axis=1); rv = p.halo_mass_to_radius(m[hs])
u = np.round(d / r[:, None], 9)
first = np.array([u[np.flatnonzero(hs == i)[0]] for i in sorted(set(hs.tolist()))])
print(json.dumps(dict(pool=bool(getattr(tools, "HAVE_POOL", True)), far=float(np.max(r / rv)), finite=bool(np.all(np.isfinite(pos))),
    same=int(len(first) - len(np.unique(first, axis=0))), zero=int(np.sum(r == 0)), n=int(len(hs)))))
"""


def run_pool(u, tier, res):
    """Parallel placement (optional pathos package, replaced by a forking stand-in)."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", POOL, os.path.join(here, "stubs"), os.path.dirname(here), str(u[1])],
                       capture_output=True, text=True, env=dict(os.environ), timeout=300)
    res.states += 1
    res.traces += 1
    key = f"pool:{u[1]}"
    if p.returncode:
        return res.fail(key, f"parallel populate fails: {p.stderr.strip().splitlines()[-1:]}")
    v = json.loads(p.stdout.strip().splitlines()[-1])
    res.transitions += v["n"]
    if not v["finite"] or v["far"] > 1.001 or v["zero"]:
        res.fail(key, f"satellites placed in parallel are not in their haloes: {v}")
    if v["same"] > 0:
        res.fail(key, f"{v['same']} haloes repeat the first satellite direction of another: random numbers are reused")
    res.sample(v)
    return None


def run_unit(u, tier):
    res = Result()
    {"tree": run_tree, "place": run_place, "model": run_model, "edges": run_edges, "pool": run_pool}[u[0]](u, tier, res)
    return res
