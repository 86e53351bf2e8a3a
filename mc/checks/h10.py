"""H10: totals are the sums of their parts and real and Fourier space agree."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import DMHaloModel, TracerHaloModel
from ..impl import cross_correlations as xc

id = "H10"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (environment x profiles x occupation x spectrum x switches x specification of "
    "the separations); in every state all totals, callables and quantities of the real model are related to each other "
    "and every correlation to a direct numerical transform of its power spectrum"
)
level_note = (
    "Complete over the lattice. The one-halo turnover switch acts on power spectra only where correlations are computed "
    "in real space; the transform is then compared with the switch off. Transform tolerance 2.5%."
)
rule = "state = (model, quantity) ; transition = one value related ; trace = one model whose whole set was related"
assumptions = [
    "transform oracle: direct quadrature with 1% Gaussian smoothing of the separation",
    "resolution of the internal tables (dr_table, dlnk) is fine enough for 2.5% (measured: below 1.5%)",
]

BASE = dict(transfer_model="EH", lnk_min=-9, lnk_max=9, dlnk=0.05, Mmin=10, Mmax=15.5, dlog10m=0.05, dr_table=0.05,
            rmin=0.03, rmax=60, rnum=8, hm_dlog10k=0.4)
CASES = [
    dict(),
    dict(halo_profile_model="Hernquist"),
    dict(halo_profile_model="GeneralizedNFW", z=0.5),
    dict(halo_profile_model="CoredNFW", hod_model="Zheng05", z=1.0),
    dict(tracer_profile_model="NFW", tracer_concentration_model="Duffy08", tracer_concentration_params={"a": 4.0}),
    dict(tracer_profile_model="Hernquist", tracer_concentration_model="Duffy08", hod_params={"central": True}),
    dict(halo_profile_model="Hernquist", tracer_profile_model="NFW", hod_model="Tinker05"),
    dict(hc_spectrum="nonlinear", hod_model="Contreras13", sigma_8=0.7),
    dict(hc_spectrum="filtered-nl"),
    dict(hc_spectrum="filtered-lin", force_unity_dm_bias=False, hod_model="Zehavi05Marked", hod_params={"logA": 0.5}),
    dict(mdef_model="SOVirial", hmf_model="Tinker08", halo_concentration_model="Bullock01", force_unity_dm_bias=False),
    dict(hod_model="ContinuousPowerLaw"),
    dict(hod_model="Leauthaud11", cosmo_model="WMAP5"),
    dict(hod_model="Spinelli19", z=0.2),
]
RSPEC = [
    dict(), dict(rlog=False, rmin=0.5, rmax=30.0, rnum=5), dict(rmin=np.array([0.031, 0.17, 1.234, 7.7, 44.4])),
    dict(rmin=[2.5]), dict(rmin=0.0005, rmax=900.0, rnum=9),
]
EXCL = [dict(exclusion_model="Sphere"), dict(exclusion_model="NgMatched"), dict(sd_bias_model="TinkerSD05")]
PARTS = {
    "auto_matter": ("1h_auto_matter", "2h_auto_matter"),
    "auto_tracer": ("1h_auto_tracer", "2h_auto_tracer"),
    "cross_tracer_matter": ("1h_cross_tracer_matter", "2h_cross_tracer_matter"),
    "1h_auto_tracer": ("1h_cs_auto_tracer", "1h_ss_auto_tracer"),
}
ALL = sorted(set(PARTS) | {x for v in PARTS.values() for x in v})


def bounds(tier):
    return (
        f"{len(CASES)} models x turnover on/off x {len(RSPEC)} separation specifications x all {len(ALL)} terms in both "
        f"spaces; {len(EXCL)} scale-dependent models for the sums; two-tracer cross-correlations"
    )


def units(tier):
    u = [("grids",)] + [("ft", c) for c in range(len(CASES))] + [("sum", c, r) for c in range(len(CASES)) for r in range(len(RSPEC))]
    return u + [("excl", x, c) for x in range(len(EXCL)) for c in (0, 5)] + [("dm", c) for c in (0, 1, 9)] + [
        ("cross", c) for c in range(4)
    ]


def _grids(u, tier):
    """The requested separations and wavenumbers, for every small number of them."""
    res = Result()
    h = DMHaloModel(transfer_model="EH", Mmin=11, dlog10m=0.1)
    for n, log, (a, b) in itertools.product([*range(1, 10), 30], (True, False), ((0.01, 50.0), (2, 3), (1.0, 190.0))):
        h.update(rmin=a, rmax=b, rnum=n, rlog=log)
        res.states += 1
        res.transitions += n
        want = [a * (b / a) ** (i / max(n - 1, 1)) if log else a + (b - a) * i / max(n - 1, 1) for i in range(n)]
        if np.shape(h.r) != (n,) or not np.allclose(h.r, want, rtol=1e-12):
            res.fail(f"grids:r:{n}:{log}", f"{n} {'log' if log else 'linear'} separations between {a} and {b} are {h.r}")
    for v in ([1.0], [0.5, 7.0, 2.0], np.array([3.0, 4.0]), np.array([0.1]), (2.0, 5.0)):
        h.update(rmin=v)
        res.states += 1
        res.transitions += 1
        if not np.array_equal(h.r, np.array(v)):
            res.fail(f"grids:r:{type(v).__name__}", f"separations {v} are {h.r}")
    for a, n, d in itertools.product((-2.0, -1.5, 0.0), range(1, 8), (0.05, 0.3, 0.7)):
        b = a + (n - 0.5) * d  # half a step beyond the last one
        h.update(hm_logk_min=a, hm_logk_max=b, hm_dlog10k=d)
        res.states += 1
        res.transitions += n
        if np.shape(h.k_hm) != (n,) or not np.allclose(np.log10(h.k_hm), [a + i * d for i in range(n)], atol=1e-9):
            res.fail(f"grids:k_hm:{n}", f"wavenumbers from 1e{a} to 1e{b} by {d} dex are {h.k_hm}")
    return res


def run_unit(unit, tier):
    return globals()["_" + unit[0]](unit, tier)


def transform(P, r, eps=0.01):
    """xi(r) by direct quadrature of the callable power spectrum."""
    out = []
    for rr in r:
        k = np.concatenate(
            [np.exp(np.linspace(np.log(1e-5), np.log(0.2 / rr), 2001)), np.arange(0.2 / rr, 6 / eps / rr, 0.05 / rr)[1:]]
        )
        f = P(k) * k**2 * np.sinc(k * rr / np.pi) * np.exp(-((eps * k * rr) ** 2) / 2)
        out.append(np.trapezoid(f, k) / 2 / np.pi**2)
    return np.array(out)


def cmp(res, key, what, got, want, tol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    res.transitions += got.size
    if got.shape != want.shape:
        res.fail(key, f"{what}: shape {got.shape} expected {want.shape}")
        return
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        i = int(np.argmax(bad))
        res.fail(key, f"{what}: {got.flat[i]} expected {want.flat[i]} (element {i})")


def sums(res, m, key, cls="tracer", tol=1e-9):
    """Totals, parts, callables and quantities agree exactly."""
    ks = np.array([1e-4, 0.013, 0.11, 1.7, 21.0, 900.0])
    rs = np.array([4e-4, 0.011, 0.37, 2.2, 19.0, 111.0, 500.0])
    for space, x, grid in (("power", ks, m.k_hm), ("corr", rs, m.r)):
        for tot, (a, b) in PARTS.items():
            if cls == "dm" and "tracer" in tot:
                continue
            f, fa, fb = (getattr(m, f"{space}_{q}_fnc") for q in (tot, a, b))
            ref = np.asarray(fa(x)) + np.asarray(fb(x))
            if space == "corr" and tot == "1h_auto_tracer":
                # the total is splined itself: only compare within the table, to its resolution
                s = (x > 1e-2) & (x < 0.6)
                cmp(res, f"sum:{space}:{tot}:{key}", f"{space}_{tot} vs cs+ss", np.asarray(f(x))[s], ref[s],
                    2e-2 * np.abs(ref[s]))
            else:
                cmp(res, f"sum:{space}:{tot}:{key}", f"{space}_{tot} vs {a}+{b}", f(x), ref, tol * np.abs(ref) + 1e-14)
        for q in ALL:
            if cls == "dm" and "tracer" in q:
                continue
            f = getattr(m, f"{space}_{q}_fnc")
            v = np.asarray(getattr(m, f"{space}_{q}"))
            cmp(res, f"grid:{space}:{q}:{key}", f"{space}_{q} vs its callable", v, f(grid), tol * np.abs(v) + 1e-300)
            one = np.array([float(f(float(t))) for t in grid])
            cmp(res, f"scalar:{space}:{q}:{key}", f"{space}_{q} scalar calls", one, v, tol * np.abs(v) + 1e-300)
            res.states += 1
    for q, f in (("corr_linear_mm", "corr_linear_mm_fnc"), ("corr_halofit_mm", "corr_halofit_mm_fnc")):
        v = np.asarray(getattr(m, q))
        cmp(res, f"grid:{q}:{key}", q, v, getattr(m, f)(m.r), tol * np.abs(v))
    for q, f in (("power", "linear_power_fnc"), ("nonlinear_power", "nonlinear_power_fnc")):
        v = np.asarray(getattr(m, q))
        cmp(res, f"grid:{q}:{key}", q, getattr(m, f)(m.k), v, 1e-8 * np.abs(v))
    res.traces += 1


def vanish(res, m, key, names):
    for q in names:
        v = np.asarray(getattr(m, f"corr_{q}_fnc")(np.array([150.0, 250.0, 350.0, 1e4])))
        res.transitions += 4
        if not (np.all(np.abs(v[:2]) < 0.1) and np.all(v[2:] == 0)):
            res.fail(f"vanish:{q}:{key}", f"corr_{q} does not vanish at large separation: {v}")


def _sum(unit, tier):
    _, c, r = unit
    res = Result()
    for turn in (True, False):
        p = dict(BASE, **CASES[c], force_1halo_turnover=turn)
        p.update(RSPEC[r])
        m = TracerHaloModel(**p)
        key = f"{c}:{r}:{int(turn)}"
        rm = p["rmin"]
        want = np.array(rm, float) if hasattr(rm, "__len__") else (
            np.geomspace(rm, p["rmax"], p["rnum"]) if p.get("rlog", True) else np.linspace(rm, p["rmax"], p["rnum"]))
        cmp(res, f"r:{key}", "separations", m.r, want, 1e-10 * want)
        kk = 10 ** np.arange(m.hm_logk_min, m.hm_logk_max, m.hm_dlog10k)
        cmp(res, f"k:{key}", "wavenumbers", m.k_hm, kk, 1e-10 * kk)
        sums(res, m, key)
        vanish(res, m, key, ALL)
    return res


def _dm(unit, tier):
    _, c = unit
    res = Result()
    p = {k: v for k, v in CASES[c].items() if not k.startswith(("hod", "tracer"))}
    for r in range(len(RSPEC)):
        m = DMHaloModel(**{**BASE, **p, **RSPEC[r]})
        sums(res, m, f"dm:{c}:{r}", cls="dm")
        vanish(res, m, f"dm:{c}:{r}", [q for q in ALL if "tracer" not in q])
    return res


def _ft(unit, tier):
    _, c = unit
    res = Result()
    m = TracerHaloModel(**dict(BASE, **CASES[c]))
    r = m.r if tier == "quick" else np.geomspace(0.012, 110.0, 24)
    for turn in (False, True):
        m.update(force_1halo_turnover=turn)
        xi = {}
        for q in ALL:
            xi[q] = transform(getattr(m, f"power_{q}_fnc"), r)
        filt = "filtered" in m.hc_spectrum
        for q in ALL:
            # correlations computed in real space do not know about the turnover
            if turn and q != "2h_auto_matter":
                lam = m.halo_profile.has_lam if "matter" in q and "cross" not in q else m.tracer_profile.has_lam
                if "cross" not in q and "2h" not in q and (lam or "tracer" in q):
                    continue
            got = np.asarray(getattr(m, f"corr_{q}_fnc")(r))
            kind = "matter" if q.endswith("auto_matter") else "tracer" if q.endswith("auto_tracer") else "cross"
            one = {"matter": "1h_auto_matter", "tracer": "1h_auto_tracer", "cross": "1h_cross_tracer_matter"}[kind]
            two = {"matter": "2h_auto_matter", "tracer": "2h_auto_tracer", "cross": "2h_cross_tracer_matter"}[kind]
            tol = 0.025 * np.abs(xi[q]) + 3e-3 * np.abs(xi[two]) + (0 if "2h" in q else 0.025 * np.abs(xi[one]))
            if filt:  # truncated spectra ring
                tol = tol + 0.02 * np.max(np.abs(xi[two]))
            tol = tol + 1e-5
            res.states += 1
            cmp(res, f"ft:{q}:{c}:{int(turn)}", f"corr_{q} vs transform of power_{q}", got, xi[q], tol)
    for q, f in (("corr_linear_mm_fnc", "linear_power_fnc"), ("corr_halofit_mm_fnc", "nonlinear_power_fnc")):
        w = transform(getattr(m, f), r)
        res.states += 1
        cmp(res, f"ft:{q}:{c}", f"{q} vs transform", getattr(m, q)(r), w, 0.025 * np.abs(w) + 1e-5)
    res.traces += 1
    return res


def _excl(unit, tier):
    _, x, c = unit
    res = Result()
    m = TracerHaloModel(**{**BASE, **CASES[c], **EXCL[x], "dr_table": 0.1, "dlog10m": 0.1})
    sums(res, m, f"excl:{x}:{c}")
    vanish(res, m, f"excl:{x}:{c}", ALL)
    # power from correlation: transform back
    r = np.array([3.0, 8.0, 20.0, 50.0])
    for q in ("2h_auto_tracer", "2h_auto_matter"):
        got = np.asarray(getattr(m, f"corr_{q}_fnc")(r))
        P = getattr(m, f"power_{q}_fnc")

        def full(k, P=P, q=q):
            # below 1e-2 the computed power is documented to be linear power times bias squared
            b = m.bias_effective_tracer if "tracer" in q else 1.0
            return np.where(k < 1.3e-2, b**2 * m.linear_power_fnc(k), P(np.maximum(k, 1e-2)))

        w = transform(full, r)
        res.states += 1
        cmp(res, f"ft:{q}:excl:{x}:{c}", f"{q} there and back", got, w, 0.08 * np.abs(w) + 0.01)
    return res


def _cross(unit, tier):
    _, c = unit
    res = Result()
    pairs = [(0, 5), (1, 3), (6, 11), (12, 4)]
    a, b = pairs[c]
    com = {k: v for k, v in BASE.items()}
    pa = {k: v for k, v in CASES[a].items() if k.startswith(("hod", "tracer", "halo_profile"))}
    pb = {k: v for k, v in CASES[b].items() if k.startswith(("hod", "tracer", "halo_profile"))}
    x = xc.CrossCorrelations(cross_hod_model="ConstantCorr", halo_model_1_params=dict(com, **pa),
                             halo_model_2_params=dict(com, **pb))
    m = x.halo_model_1
    ks = np.array([1e-4, 0.013, 0.11, 1.7, 21.0])
    rs = np.array([0.011, 0.37, 2.2, 19.0, 111.0, 500.0])
    f1, f2 = x.power_1h_cross_fnc(ks), x.power_2h_cross_fnc(ks)
    cmp(res, f"sum:power_cross:{c}", "power_cross", x.power_cross_fnc(ks), f1 + f2, 1e-9 * np.abs(f1 + f2))
    g1, g2 = x.corr_1h_cross_fnc(rs), x.corr_2h_cross_fnc(rs)
    cmp(res, f"sum:corr_cross:{c}", "corr_cross", x.corr_cross_fnc(rs), g1 + g2, 1e-9 * np.abs(g1 + g2) + 1e-13)
    for q in ("1h_cross", "2h_cross", "cross"):
        p, g = np.asarray(getattr(x, f"power_{q}")), np.asarray(getattr(x, f"corr_{q}"))
        fp, fg = getattr(x, f"power_{q}_fnc"), getattr(x, f"corr_{q}_fnc")
        cmp(res, f"grid:power_{q}:{c}", f"power_{q}", p, fp(m.k_hm), 1e-9 * np.abs(p))
        cmp(res, f"grid:corr_{q}:{c}", f"corr_{q}", g, fg(m.r), 1e-9 * np.abs(g) + 1e-13)
        w = transform(fp, m.r)
        one = np.abs(transform(x.power_1h_cross_fnc, m.r)) if q != "2h_cross" else 0
        two = np.abs(transform(x.power_2h_cross_fnc, m.r))
        cmp(res, f"ft:{q}:{c}", f"corr_{q} vs transform", g, w, 0.025 * np.abs(w) + 3e-3 * two + 0.01 * one + 1e-5)
        res.states += 3
    res.traces += 1
    return res
