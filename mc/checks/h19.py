"""H19: cross-correlations of two tracers."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel, cross_correlations as xc, grid, hod as hodmod
from ..ref.halo import Spectra, cuts_of

id = "H19"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (pair of occupation models x cross-occupation model and correlation "
    "coefficients x environment x profiles) and of all masses around every cut-off for the pair counts; the real "
    "spectra of both orderings are compared with independent mass integrals, with each other and with the auto spectra"
)
level_note = "Exhaustive over the lattice at a handful of wavenumbers and separations; both tracers share grids, cosmology and redshift."
rule = "state = (pair of tracers, correlation, environment) ; transition = one pair count or spectrum value compared ; trace = one cross-correlation object"
assumptions = ["mean occupations (H05), mass function integrals (H07) and profile transforms (H12)"]

#: occupations usable as discrete tracers
HODS = [
    ("Zehavi05", {"M_min": 11.83}), ("Zehavi05", {"M_min": 12.31, "central": True}), ("Zheng05", {"M_min": 12.1}),
    ("Zheng05", {"M_min": 12.4, "central": True}), ("Tinker05", {"M_min": 12.05}), ("Contreras13", {}), ("Geach12", {"M_min": 11.5}),
    ("Zehavi05Marked", {"logA": 0.0, "M_min": 12.0}), ("Constant", {"M_min": 11.7}), ("ContinuousPowerLaw", {}), ("Leauthaud11", {}),
    ("Zehavi05WithMax", {"M_min": 11.9, "M_max": 14.2}),
]
RS = [-0.3, 0.0, 0.5, 1.0]
ENVS = [dict(), dict(z=0.9, mdef_model="SOVirial", cosmo_params={"Om0": 0.27}), dict(hc_spectrum="nonlinear", z=0.4)]
PROFS = [
    (dict(), dict()), (dict(tracer_profile_model="Hernquist"), dict()),
    (dict(), dict(tracer_profile_model="CoredNFW", tracer_concentration_model="Ludlow16Empirical")),
]
BASE = grid(Mmin=10.0, Mmax=15.5, dlog10m=0.02, lnk_min=-6, lnk_max=5, dlnk=0.1, rnum=6, dr_table=0.1)


class MassCorr(xc._HODCross):
    """A cross model with mass-dependent correlations and self pairs."""

    _defaults = {"a": 0.5, "q": 0.25}

    def R_ss(self, m):
        return self.params["a"] * np.tanh(np.log10(m) - 12)

    def R_cs(self, m):
        return 0.3 * np.ones_like(m)

    def R_sc(self, m):
        return -0.2 * self.params["a"] * np.ones_like(m)

    def self_pairs(self, m):
        return self.params["q"] * self.hods[0].satellite_occupation(m)


def pairs(tier):
    n = len(HODS)
    if tier != "quick":
        return [(i, j) for i in range(n) for j in range(n)]
    return [(0, 2), (1, 3), (2, 2), (1, 1), (4, 5), (6, 7), (0, 8), (9, 2), (3, 10), (11, 0), (1, 2), (8, 9)]


def bounds(tier):
    return {"pairs": len(pairs(tier)), "R": RS, "environments": len(ENVS), "profiles": len(PROFS), "occupations": [h[0] for h in HODS]}


def units(tier):
    return [("counts", i) for i in range(len(HODS))] + [("grids", i) for i in range(3)] + [("spec", i, j, (i + j) % len(ENVS), (i + 2 * j) % len(PROFS)) for i, j in pairs(tier)] + (
        [("spec", i, j, e, p) for i, j in [(2, 3), (0, 1)] for e in range(len(ENVS)) for p in range(len(PROFS))]
    )


def make(i):
    n, p = HODS[i]
    return getattr(hodmod, n)(**p)


def run_counts(u, tier, res):
    """Pair counts from the two occupations and the stated correlations."""
    i = u[1]
    for j in range(len(HODS)):
        h1, h2 = make(i), make(j)
        cuts = {c for h in (h1, h2) for c in cuts_of(h)}
        x = np.array(sorted({10.0, 12.0, 13.0, 14.5, 15.5} | {c + d for c in cuts for d in (-0.02, -1e-9, 0.0, 1e-9, 0.3) if 5 < c < 16}))
        m = 10**x
        mods = [("const", xc.ConstantCorr, dict(R_ss=a, R_cs=b, R_sc=c)) for a, b, c in itertools.product(RS, RS, RS)]
        mods += [("mass", MassCorr, dict(a=a, q=q)) for a, q in ((0.5, 0.25), (-1.0, 0.0))]
        one = lambda v: np.broadcast_to(np.asarray(v, float), m.shape)  # noqa: E731
        c1, s1, c2, s2 = one(h1.central_occupation(m)), one(h1.satellite_occupation(m)), one(h2.central_occupation(m)), one(h2.satellite_occupation(m))
        gc1, gs1, gc2, gs2 = (one(f(m)) for f in (h1.sigma_central, h1.sigma_satellite, h2.sigma_central, h2.sigma_satellite))
        for name, cls, pr in mods:
            x12, x21 = cls([h1, h2], **pr), cls([h2, h1], **(dict(pr, R_cs=pr["R_sc"], R_sc=pr["R_cs"]) if name == "const" else pr))
            res.states += 1
            res.traces += 1
            res.transitions += 6 * len(m)
            if name == "const":
                rss, rcs, rsc, q = pr["R_ss"], pr["R_cs"], pr["R_sc"], 0.0
            else:
                rss, rcs, rsc, q = pr["a"] * np.tanh(x - 12), 0.3, -0.2 * pr["a"], pr["q"] * s1
            want = {
                "ss": s1 * s2 + gs1 * gs2 * rss - q,
                "cs": c1 * s2 + gc1 * gs2 * rcs,
                "sc": s1 * c2 + gs1 * gc2 * rsc,
            }
            key = f"counts:{HODS[i][0]}:{i}:{j}:{name}:{','.join(map(str, pr.values()))}"
            for k, w in want.items():
                got = one(getattr(x12, f"{k}_cross_pairs")(m))
                if not np.allclose(got, w, rtol=1e-9, atol=1e-12, equal_nan=True):
                    n = int(np.argmax(~np.isclose(got, w, rtol=1e-9, atol=1e-12)))
                    res.fail(f"{key}:{k}", f"{k} pairs at log10 m={x[n]:.6g}: {got[n]:.6g}, expected {w[n]:.6g}")
                if name == "const":
                    sw = one(getattr(x21, {"ss": "ss", "cs": "sc", "sc": "cs"}[k] + "_cross_pairs")(m))
                    if not np.allclose(got, sw, rtol=1e-9, atol=1e-12, equal_nan=True):
                        res.fail(f"{key}:{k}:swap", f"{k} pairs change when the tracers are swapped")
    res.sample({"hod": HODS[i][0]})


_S = {}


def spectra(params):
    k = repr(sorted(params.items(), key=str))
    if k not in _S:
        _S[k] = Spectra(TracerHaloModel, params)
    return _S[k]


def run_spec(u, tier, res):
    _, i, j, e, pr = u
    env = ENVS[e]
    P1 = dict(BASE, **env, **PROFS[pr][0], hod_model=HODS[i][0], hod_params=dict(HODS[i][1]))
    P2 = dict(BASE, **env, **PROFS[pr][1], hod_model=HODS[j][0], hod_params=dict(HODS[j][1]))
    key0 = f"spec:{i}:{j}:{e}:{pr}"
    S1, S2 = spectra(dict(BASE, **env, **PROFS[pr][0])), spectra(dict(BASE, **env, **PROFS[pr][1]))
    for cmod, cp in [("ConstantCorr", {}), (xc.ConstantCorr, {"R_ss": 1.0, "R_cs": 0.5}), ("ConstantCorr", {"R_sc": 0.7, "R_ss": -0.2}), (MassCorr, {})]:
        key = f"{key0}:{cmod if isinstance(cmod, str) else cmod.__name__}:{','.join(map(str, cp.values()))}"
        X = xc.CrossCorrelations(cross_hod_model=cmod, cross_hod_params=dict(cp), halo_model_1_params=P1, halo_model_2_params=P2)
        h1, h2 = X.halo_model_1, X.halo_model_2
        res.states += 1
        res.traces += 1
        k = h1.k[2::17]
        n1, n2 = float(h1.mean_tracer_den), float(h2.mean_tracer_den)
        hod1, hod2 = h1.hod, h2.hod
        cr = X.cross_hod
        cuts = sorted({c for h in (hod1, hod2) for c in cuts_of(h)})
        lo, top, dl = S1.lo, float(np.log10(h1.m[-1])), BASE["dlog10m"]

        def cut(h):
            return float(h.mmin) if h.sharp_cut and (h._central or h.central_condition_inherent) else None

        # one-halo
        def f1(m, x):
            u1, u2 = S1.ut(k, m), S2.ut(k, m)
            one = lambda v: np.broadcast_to(np.nan_to_num(np.asarray(v, float)), m.shape)  # noqa: E731
            return [u1 * u2 * one(cr.ss_cross_pairs(m)) + u1 * one(cr.sc_cross_pairs(m)) + u2 * one(cr.cs_cross_pairs(m))]

        w = S1.I.integrate(f1, lo, top, cuts)[0] / (n1 * n2)
        near = [c for c in cuts if lo - 1.5 * dl < c < top + dl]
        t = (1.3 * dl * np.asarray(S1.I.jumps(f1, near, dl)[0]) if near else 0) / (n1 * n2)
        got = np.asarray(X.power_1h_cross_fnc(k))
        res.transitions += 2 * len(k)
        tol = 5e-3 * np.abs(w) + t + 1e-5 * np.max(np.abs(w))
        if not np.all(np.abs(got - w) <= tol):
            n = int(np.argmax(np.abs(got - w) - tol))
            res.fail(f"{key}:1h", f"one-halo power at k={k[n]:.4g}: {got[n]:.6g}, mass integral {w[n]:.6g} +- {tol[n]:.2g}")
        # two-halo
        b1, t1 = S1.biases(k, top, hod1, cut(hod1), dl)
        b2, t2 = S2.biases(k, top, hod2, cut(hod2), dl)
        phh = np.asarray({"linear": h1.linear_power_fnc, "nonlinear": h1.nonlinear_power_fnc}[env.get("hc_spectrum", "linear")](k))
        w = b1["auto"] * b2["auto"] * phh / (n1 * n2)
        tol = 4e-3 * np.abs(w) + (t1["auto"] * b2["auto"] + t2["auto"] * b1["auto"]) * phh / (n1 * n2)
        got = np.asarray(X.power_2h_cross_fnc(k))
        if not np.all(np.abs(got - w) <= tol):
            n = int(np.argmax(np.abs(got - w) - tol))
            res.fail(f"{key}:2h", f"two-halo power at k={k[n]:.4g}: {got[n]:.6g}, expected {w[n]:.6g} +- {tol[n]:.2g}")
        # sums, grids, transforms
        kk, r = h1.k_hm, h1.r
        eq(res, key, "power_cross = 1h + 2h", X.power_cross, X.power_1h_cross + X.power_2h_cross)
        eq(res, key, "corr_cross = 1h + 2h", X.corr_cross, X.corr_1h_cross + X.corr_2h_cross)
        eq(res, key, "power_1h_cross on the grid", X.power_1h_cross, X.power_1h_cross_fnc(kk))
        eq(res, key, "power_2h_cross on the grid", X.power_2h_cross, X.power_2h_cross_fnc(kk))
        eq(res, key, "power_cross on the grid", X.power_cross, X.power_cross_fnc(kk))
        eq(res, key, "corr_1h_cross on the grid", X.corr_1h_cross, X.corr_1h_cross_fnc(r))
        eq(res, key, "corr_2h_cross on the grid", X.corr_2h_cross, X.corr_2h_cross_fnc(r))
        eq(res, key, "corr_cross on the grid", X.corr_cross, X.corr_cross_fnc(r))
        rt = h1._r_table[h1._r_table > 0.03][::12]
        for q, h in (("1h", 1e-4), ("2h", 1e-4)):
            fnc = getattr(X, f"power_{q}_cross_fnc")
            want = fourier(fnc, rt)
            got = np.asarray(getattr(X, f"corr_{q}_cross_fnc")(rt))
            res.transitions += len(rt)
            if not np.allclose(got, want, rtol=2e-2, atol=2e-4 * np.max(np.abs(want))):
                n = int(np.argmax(np.abs(got - want) / (np.abs(want) * 2e-2 + 2e-4 * np.max(np.abs(want)))))
                res.fail(f"{key}:ft{q}", f"{q} correlation at r={rt[n]:.4g}: {got[n]:.6g}, transform of the power {want[n]:.6g}")
        # swapped order
        if cmod is not MassCorr:
            sp = {"R_ss": cp.get("R_ss", 0.0), "R_cs": cp.get("R_sc", 0.0), "R_sc": cp.get("R_cs", 0.0)}
            Y = xc.CrossCorrelations(cross_hod_model=cmod, cross_hod_params=sp, halo_model_1_params=P2, halo_model_2_params=P1)
            for q in ("power_1h_cross", "power_2h_cross", "power_cross", "corr_1h_cross", "corr_2h_cross", "corr_cross"):
                eq(res, key, f"{q} with the tracers swapped", getattr(Y, q), getattr(X, q), 1e-6)
            res.traces += 1
        # identical tracers
        if i == j and pr == 0:
            eq(res, key, "two-halo power of identical tracers vs auto", X.power_2h_cross, h1.clone(exclusion_model="NoExclusion", sd_bias_model=None).power_2h_auto_tracer, 2e-3)
    if i == j and (PROFS[pr][0] == PROFS[pr][1]):
        X = xc.CrossCorrelations("ConstantCorr", {}, P1, P2)
        h = X.halo_model_1.clone(force_1halo_turnover=False)
        if not hod1._central:
            # independent Poisson satellites: <T1 T2> pairs equal those within one tracer (cs counted in both orders)
            k = h.k[4::17]
            got, w = np.asarray(X.power_1h_cross_fnc(k)), np.asarray(h.power_1h_auto_tracer_fnc(k))
            res.transitions += len(k)
            j1 = 1.3 * dl * np.asarray(S1.I.jumps(f1, near, dl)[0]) / n1**2 if near else 0
            if not np.all(np.abs(got - w) <= 5e-3 * w + 2 * j1):
                res.fail(f"{key0}:identical", f"one-halo power of identical uncorrelated tracers {got[:3]}, auto power {w[:3]}")
    res.sample({"pair": [HODS[i][0], HODS[j][0]], "env": str(env)})


def eq(res, key, what, a, b, rtol=1e-9):
    res.transitions += 1
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=1e-9 * np.nanmax(np.abs(b), initial=0)):
        n = int(np.argmax(np.abs(a - b))) if a.shape == b.shape else 0
        res.fail(f"{key}:{what}", f"{what}: {a.ravel()[n]:.6g} against {b.ravel()[n]:.6g}")


def fourier(fnc, r):
    """xi(r) = int k^2 P sin(kr)/(kr) dk / 2 pi^2 with a Gaussian damping far beyond the scales of interest."""
    lk = np.linspace(np.log(1e-6), np.log(3e4), 60001)
    k = np.exp(lk)
    w = np.full(len(k), lk[1] - lk[0])
    w[[0, -1]] /= 2
    base = w * k**3 * np.asarray(fnc(k)) / (2 * np.pi**2)
    out = np.empty(len(r))
    for i, x in enumerate(r):
        kd = 250.0 / x
        out[i] = np.sum(base * np.sinc(k * x / np.pi) * np.exp(-((k / kd) ** 2)))
    return out


def run_grids(u, tier, res):
    """The two-halo term does not need the two tracers to share a mass grid."""
    i, j = [(2, 3), (0, 1), (1, 2)][u[1]]
    one = dict(BASE, hod_model=HODS[i][0], hod_params=dict(HODS[i][1]))
    two = dict(BASE, hod_model=HODS[j][0], hod_params=dict(HODS[j][1]))
    ref = xc.CrossCorrelations(cross_hod_model="ConstantCorr", halo_model_1_params=one, halo_model_2_params=two)
    w = np.asarray(ref.power_2h_cross_fnc(ref.halo_model_1.k))
    for other in (dict(dlog10m=0.025), dict(dlog10m=0.0125, Mmax=15.6), dict(Mmax=16)):
        for a, b in ((one, dict(two, **other)), (dict(one, **other), two)):
            X = xc.CrossCorrelations(cross_hod_model="ConstantCorr", halo_model_1_params=a, halo_model_2_params=b)
            got = np.asarray(X.power_2h_cross_fnc(ref.halo_model_1.k))
            res.states += 1
            res.traces += 1
            res.transitions += len(w)
            if not np.allclose(got, w, rtol=1e-2):
                n = int(np.argmax(np.abs(got / w - 1)))
                res.fail(f"grids:{i}:{j}:{other}", f"two-halo power {got[n]:.6g} with one tracer on the mass grid {other}, {w[n]:.6g} on a common one")


def run_unit(u, tier):
    res = Result()
    {"counts": run_counts, "grids": run_grids, "spec": run_spec}[u[0]](u, tier, res)
    return res
