"""H25: a value belongs to its scale, mass or angle, not to the grid it was asked for on."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import (
    DMHaloModel, TracerHaloModel, bias, canon, concentration, cross_correlations, grid, hod, integrate_corr,
    profiles, wdm,
)

id = "H25"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (framework x configuration x output grid x route) and of every ordered "
    "selection of probe scales, masses and angles, executed on the real code; each answer is compared with the "
    "answer for the same point on the reference grid; and of single changes of every internal resolution, with "
    "the drift of the totals bounded"
)
level_note = (
    "Exhaustive over the listed grids and over all ordered selections of the probes; equality is to 1e-9. The "
    "resolution part bounds the drift by a stated tolerance."
)
rule = "state = one grid, selection or resolution; transition = one quantity or function evaluated; trace = one comparison"
assumptions = [
    "the accuracy of the numerics at the documented default resolution is within the stated tolerances",
]

RTOL = 1e-9
TOL = 0.03
NP = 6
R = np.array([0.02, 0.3, 2.0, 12.0, 40.0])
K = np.array([0.003, 0.02, 0.2, 2.0, 30.0])
M = np.array([3e10, 4e11, 7e12, 9e13, 2e15])
PRIVATE = ("_get_corr_2h_auto_fnc", "_get_power_2h_auto_fnc")

CONFIGS = {
    "dm": (DMHaloModel, {}),
    "dm-nl": (DMHaloModel, dict(hc_spectrum="nonlinear", halo_profile_model="Moore")),
    "tr": (TracerHaloModel, {}),
    "tr-ng": (TracerHaloModel, dict(exclusion_model="NgMatched", hod_model="Zheng05")),
    "tr-sphere": (TracerHaloModel, dict(exclusion_model="Sphere", hc_spectrum="nonlinear", sd_bias_model="TinkerSD05")),
    "tr-ell": (TracerHaloModel, dict(exclusion_model="DblEllipsoid", force_1halo_turnover=False)),
    "tr-dbl": (TracerHaloModel, dict(exclusion_model="DblSphere", sd_bias_model="TinkerSD05")),
    "tr-filt": (TracerHaloModel, dict(hc_spectrum="filtered-nl", hod_model="Zheng05", hod_params={"central": True})),
    "tr-dens": (TracerHaloModel, dict(tracer_density=6e-3, hod_model="Zheng05")),
    "twdm": (wdm.TracerHaloModelWDM, dict(wdm_mass=2.0)),
}
GRIDS = [
    dict(rmin=1.0, rmax=3.0), dict(rmin=0.003), dict(rmax=300.0), dict(rnum=9), dict(rnum=1), dict(rlog=False),
    dict(rlog=False, rmin=2.0, rnum=4), dict(rmin=[3.0, 7.0]), dict(rmin=np.array([30.0, 0.5])), dict(rmin=[1.0]),
    dict(hm_logk_min=-1), dict(hm_logk_min=-4), dict(hm_logk_max=3), dict(hm_logk_max=0.5), dict(hm_dlog10k=0.5),
    dict(hm_dlog10k=0.011), dict(rmin=0.5, rnum=3, hm_logk_min=-3, hm_dlog10k=0.2),
]


_NAMES = {}


def names(h):
    if type(h) not in _NAMES:  # introspection is slow
        _NAMES[type(h)] = sorted(h.quantities_available())
    return _NAMES[type(h)]


def fncs(h):
    return [q for q in names(h) if q.endswith("_fnc") and q not in PRIVATE]


def snapshot(h):
    d = {}
    for q in names(h):
        if q in PRIVATE or q in ("r", "k_hm") or (q.startswith(("corr_", "power_")) and not q.endswith("_fnc")):
            continue
        try:
            v = getattr(h, q)
            if callable(v) and not q.endswith("_fnc"):
                continue
            d[q] = np.array(v(R if "corr" in q else K), float) if q.endswith("_fnc") and callable(v) else canon(v)
        except Exception as e:
            d[q] = type(e).__name__
    return d


def close(a, b, rtol=RTOL):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        s = np.nanmax(np.abs(b[np.isfinite(b)]), initial=0.0)
        return bool(np.allclose(a, b, rtol=rtol, atol=1e-13 * s, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], rtol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= rtol * abs(b)
    return repr(a) == repr(b)


def run_grid(u, tier, res):
    _, c, part = u
    cls, cfg = CONFIGS[c]
    ref = snapshot(cls(**grid(**cfg)))
    for n, g in list(enumerate(GRIDS))[part::NP]:
        for route in ("new", "update") if tier == "thorough" else (("new", "update")[(n // NP + part) % 2],):
            if route == "new":
                h = cls(**{**grid(**cfg), **g})
            else:
                h = cls(**grid(**cfg))
                for q in ("corr_auto_matter", "power_auto_matter"):
                    getattr(h, q)
                h.update(**g)
            res.states += 1
            key = f"{c}:{route}:{sorted(g)}"
            got = snapshot(h)
            for q in ref:
                res.transitions += 1
                if q not in got or not close(got[q], ref[q]):
                    res.fail(f"grid:{key}:{q}", f"the value at a fixed scale changes with the output grid {g}",
                             got=str(got.get(q))[:200], want=str(ref[q])[:200])
            for q in fncs(h):
                res.traces += 1
                p = q[:-4]
                if p not in names(h) or not p.startswith(("corr_", "power_")) or not callable(getattr(h, q)):
                    continue
                x = h.r if "corr" in q else h.k_hm
                i = slice(None) if "corr" in q or c != "twdm" else (x > h.k[0]) & (x < h.k[-1])
                try:
                    want = np.array(getattr(h, q)(x), float)[i]
                    have = np.array(getattr(h, p), float)[i]
                except Exception as e:
                    res.fail(f"table:{key}:{p}", f"raises {type(e).__name__}: {e}")
                    continue
                # the smooth part of a warm spectrum is a table itself
                if not close(have, want, 1e-3 if c == "twdm" and p == "power_auto_matter" else RTOL):
                    res.fail(f"table:{key}:{p}", "the tabulated values are not the function's values on the grid",
                             got=str(have)[:200], want=str(want)[:200])


def selections(n):
    """Every ordered selection of up to n of n points, one repeated pair, and the full set."""
    for k in range(1, n + 1):
        yield from (list(s) for s in itertools.permutations(range(n), k))
    yield from ([i, i] for i in range(n))


FORMS = (("scalar", lambda x: float(x[2]), lambda y: y[2]), ("0d", lambda x: np.array(x[2]), lambda y: y[2]),
         ("2d", lambda x: x[:4].reshape(2, 2), lambda y: y[:4].reshape(2, 2)))


def pointwise(res, key, f, x, sel, forms=FORMS, rtol=RTOL):
    """f(x)[i] does not depend on the other points"""
    x = np.asarray(x)
    try:
        full = np.array(f(x.copy()), float)
    except Exception as e:
        res.fail(f"point:{key}", f"raises {type(e).__name__}: {e}")
        return
    n = len(x)
    if full.shape != (n,):
        res.fail(f"point:{key}", f"{n} points give shape {full.shape}")
        return
    for s in sel:
        res.transitions += 1
        a = x[s].copy()
        try:
            v = np.array(f(a), float)
        except Exception as e:
            res.fail(f"point:{key}:{s}", f"raises {type(e).__name__}: {e}")
            continue
        if v.shape != (len(s),) or not np.allclose(v, full[s], rtol=rtol, atol=0, equal_nan=True):
            res.fail(f"point:{key}:{s}", "the value at a point depends on the other points asked for",
                     got=v.tolist(), want=full[s].tolist())
        if not np.array_equal(a, x[s]):
            res.fail(f"point:{key}:{s}:arg", "the argument was changed")
    for nm, fx, fy in forms:
        res.transitions += 1
        try:
            v = np.array(f(fx(x)), float)
        except Exception as e:
            res.fail(f"point:{key}:{nm}", f"raises {type(e).__name__}: {e}")
            continue
        w = fy(full)
        if v.shape != np.shape(w) or not np.allclose(v, w, rtol=rtol, atol=0, equal_nan=True):
            res.fail(f"point:{key}:{nm}", "another form of the same scale gives another value", got=v.tolist(), want=np.asarray(w).tolist())
    res.traces += 1


def run_point(u, tier, res):
    _, c = u
    cls, cfg = CONFIGS[c]
    h = cls(**grid(**cfg))
    sel = list(selections(4 if tier == "quick" else 5))
    for q in fncs(h):
        f = getattr(h, q)
        if not callable(f):
            continue
        res.states += 1
        pointwise(res, f"{c}:{q}", f, R if "corr" in q else K, sel)


def run_component(u, tier, res):
    _, kind, name = u
    sel = list(selections(4))
    if kind == "hod":
        for p in ({}, {"central": True}):
            h = hod.HOD.get_models()[name](**p)
            for fn in ("central_occupation", "satellite_occupation", "total_occupation", "nc", "ns", "ss_pairs",
                       "cs_pairs", "total_pair_function", "sigma_central", "sigma_satellite"):
                res.states += 1
                f = getattr(h, fn)  # a constant may be a plain number
                pointwise(res, f"hod:{name}:{p}:{fn}", lambda m: f(m) + 0 * m, M, sel, ())
    elif kind == "conc":
        for z in (0.0, 1.5):
            h = DMHaloModel(**grid(halo_concentration_model=name, z=z))
            res.states += 1
            asc = [s for s in sel if s == sorted(set(s))]  # relations may interpolate in ascending masses
            pointwise(res, f"conc:{name}:{z}", lambda m: h.halo_concentration.cm(m, z), M, asc, ())
    elif kind == "bias":
        h = DMHaloModel(**grid())
        i = np.array([0, 5, 9, 13, 19])

        def f(j):
            j = np.asarray(j)
            kw = dict(nu=h.nu[j], m=h.m[j], n_eff=h.n_eff[j])
            return bias.Bias.get_models()[name](
                delta_c=h.delta_c, mstar=h.mass_nonlinear, delta_halo=h.halo_overdensity_mean, n=h.n, cosmo=h.cosmo,
                sigma_8=h.sigma_8, **kw).bias()

        res.states += 1
        pointwise(res, f"bias:{name}", f, i, sel, ())
    elif kind == "profile":
        h = DMHaloModel(**grid(halo_profile_model=name))
        p = h.halo_profile
        numeric = name.startswith(("Generalized", "Moore"))
        r = np.array([0.003, 0.02, 0.1, 0.3])
        m = M[:4] * 10
        tables = {"rho": (p.rho, r)}
        if name != "Einasto":
            tables["u"] = (lambda k, m: p.u(k, m, norm="m"), K[1:])
        if p.has_lam:
            tables["lam"] = (p.lam, r)
        for nm, (fn, x) in tables.items():
            full = np.array(fn(x, m))
            # transforms without a closed form are tabulated over the range asked for
            rtol = 5e-3 if nm == "u" and numeric else RTOL
            sub = [s for k in (1, 2, 4) for s in itertools.permutations(range(4), k)]
            if name == "Einasto" or nm == "lam" or (nm == "u" and numeric):
                sub = [(0,), (2, 1), (3, 0, 2), (0, 1, 2, 3)]
            for a in sub:
                for b in sub[:: 1 if tier == "thorough" or len(sub) < 9 else 5]:
                    res.transitions += 1
                    v = np.squeeze(fn(x[list(a)], m[list(b)]))
                    w = np.squeeze(full[np.ix_(a, b)])
                    if v.shape != w.shape or not np.allclose(v, w, rtol=rtol, atol=2e-3 * (rtol > RTOL), equal_nan=True):
                        res.fail(f"point:profile:{name}:{nm}:{a}:{b}", "the value at a point depends on the other points", got=v.tolist(), want=w.tolist())
            res.traces += 1
        for fn in ("halo_mass_to_radius", "cm_relation"):
            res.states += 1
            pointwise(res, f"profile:{name}:{fn}", getattr(p, fn), m, sel, ())


# ------------------------------------------------------------------------------ the mass grid
MASSQ = ("sigma", "nu", "fsigma", "dndm", "dndlnm", "dndlog10m", "lnsigma", "halo_bias", "cmz_relation",
         "central_occupation", "satellite_occupation", "total_occupation", "n_eff", "radii")


def run_mass(u, tier, res):
    _, c = u
    cls, cfg = CONFIGS[c]
    if c == "tr-dens":
        return
    ref = cls(**grid(**cfg))
    for g in (dict(Mmin=11), dict(Mmin=9), dict(Mmax=14), dict(Mmax=16), dict(dlog10m=0.125), dict(dlog10m=0.5), dict(Mmin=11.5, Mmax=13.5)):
        h = cls(**{**grid(**cfg), **g})
        i, j = np.where(np.isclose(ref.m[:, None], h.m[None, :], rtol=1e-9))
        res.states += 1
        if len(i) < 3:
            res.fail(f"mass:{c}:{g}", f"only {len(i)} common masses")
        for q in MASSQ:
            if not hasattr(h, q):
                continue
            res.transitions += 1
            a, b = np.asarray(getattr(h, q))[j], np.asarray(getattr(ref, q))[i]
            # derivatives of the spline over the mass grid have its accuracy
            if not np.allclose(a, b, rtol=RTOL, atol=0):
                res.fail(f"mass:{c}:{sorted(g.items())}:{q}", "the value at a mass depends on the other masses of the grid",
                         got=a.tolist(), want=b.tolist())
        res.traces += 1


# ------------------------------------------------------------------------------ internal resolutions
FINE = dict(transfer_model="EH", Mmin=10, Mmax=15.5, dlog10m=0.05, lnk_min=-9, lnk_max=9, dlnk=0.05, dr_table=0.05)
STEPS = [
    dict(dlog10m=0.1), dict(dlog10m=0.07), dict(dlog10m=0.049), dict(dlog10m=0.025), dict(dlog10m=0.01),
    dict(dlnk=0.1), dict(dlnk=0.07), dict(dlnk=0.049), dict(dlnk=0.025), dict(dlnk=0.01),
    dict(dr_table=0.03), dict(dr_table=0.02), dict(dr_table=0.01),
    dict(lnk_min=-10), dict(lnk_min=-12), dict(lnk_max=10), dict(lnk_max=13), dict(lnk_min=-12, lnk_max=13),
    dict(Mmax=16), dict(Mmax=16.5), dict(dlog10m=0.025, dlnk=0.025, dr_table=0.025),
]
TOTALS = ["power_auto_matter", "corr_auto_matter", "power_auto_tracer", "corr_auto_tracer", "power_cross_tracer_matter", "corr_cross_tracer_matter"]
SCALARS = ["mean_tracer_den", "bias_effective_tracer", "bias_effective_matter", "mass_effective", "satellite_fraction", "mean_density_in_halos", "f_halos"]
RES = {
    "plain": {}, "tinker": dict(hod_model="Tinker05", hod_params={"central": True}), "nl": dict(hc_spectrum="nonlinear", sd_bias_model="TinkerSD05"),
    "z": dict(z=1.0, hod_params={"M_min": 12.0, "M_1": 13.0}), "ng": dict(exclusion_model="NgMatched"),
    "noturn": dict(force_1halo_turnover=False), "unity": dict(force_unity_dm_bias=False),
}


def run_resolution(u, tier, res):
    _, c, part = u
    r, k = np.array([0.05, 0.3, 2.0, 12.0, 40.0]), np.array([0.02, 0.2, 2.0])

    def get(**kw):
        h = TracerHaloModel(**{**FINE, "hod_model": "Zheng05", **RES[c], **kw})
        d = {q: np.array(getattr(h, q + "_fnc")(r if "corr" in q else k)) for q in TOTALS}
        d.update({q: np.array([getattr(h, q)]) for q in SCALARS if hasattr(h, q)})
        return d

    ref = get()
    for g in STEPS[part::3]:
        if tier == "quick" and any(x == 0.01 for x in g.values()):
            continue
        res.states += 1
        got = get(**g)
        for q in ref:
            res.transitions += 1
            drift = float(np.max(np.abs(got[q] / ref[q] - 1)))
            res.count("drift above 1%", drift > 0.01)
            if not drift < TOL:
                res.fail(f"resolution:{c}:{g}:{q}", f"changes by {drift:.3g} with the resolution", got=got[q].tolist(), want=ref[q].tolist())
        res.traces += 1


# ------------------------------------------------------------------------------ angles and projections
def run_angle(u, tier, res):
    base = dict(zmin=0.2, zmax=0.4, znum=20, unum=30, logu_min=-2, logu_max=1.5, p1=integrate_corr.flat_z_dist(0.2, 0.4))
    th = np.logspace(-3, -1, 9)
    ref = integrate_corr.AngularCF(**grid(theta_min=1e-3, theta_max=1e-1, theta_num=9, **base))
    want = {q: np.array(getattr(ref, q)) for q in ("angular_corr_gal", "angular_corr_matter")}
    for i, j in itertools.combinations(range(9), 2):
        for step in (1, 2, 4):
            if (j - i) % step or (tier == "quick" and (i + j) % 3):
                continue
            g = dict(theta_min=th[i], theta_max=th[j], theta_num=(j - i) // step + 1)
            h = integrate_corr.AngularCF(**grid(**g, **base))
            res.states += 1
            for q in want:
                res.transitions += 1
                if not np.allclose(getattr(h, q), want[q][i : j + 1 : step], rtol=1e-8, atol=0):
                    res.fail(f"theta:{q}:{i}:{j}:{step}", "the value at an angle depends on the other angles",
                             got=np.array(getattr(h, q)).tolist(), want=want[q][i : j + 1 : step].tolist())
            res.traces += 1


def run_proj(u, tier, res):
    rp = np.array([0.5, 1.0, 2.0, 6.0, 20.0])
    for hm in ("Zehavi05", "Zheng05"):
        base = dict(grid(hod_model=hm), rnum=60, proj_limit=90.0)
        ref = np.array(integrate_corr.ProjectedCF(**base, rp_min=rp).projected_corr_gal)
        for k in (2, 3, 4):
            for s in itertools.combinations(range(1, 5), k - 1):
                s = [0, *s]
                v = np.array(integrate_corr.ProjectedCF(**base, rp_min=rp[s]).projected_corr_gal)
                res.states += 1
                res.transitions += 1
                res.traces += 1
                if not np.allclose(v, ref[s], rtol=5e-3, atol=0):
                    res.fail(f"rp:{hm}:{s}", "the value at a projected separation depends on the others", got=v.tolist(), want=ref[s].tolist())


def run_cross(u, tier, res):
    def make(g1, g2):
        return cross_correlations.CrossCorrelations(
            cross_hod_model=cross_correlations.ConstantCorr,
            halo_model_1_params={**grid(hod_model="Zehavi05"), **g1},
            halo_model_2_params={**grid(hod_model="Zheng05"), **g2})

    def get(x):
        return {q: np.array(getattr(x, q)(R if "corr" in q else K)) for q in
                ("power_1h_cross_fnc", "power_2h_cross_fnc", "power_cross_fnc", "corr_1h_cross_fnc", "corr_2h_cross_fnc", "corr_cross_fnc")}

    ref = get(make({}, {}))
    for g in GRIDS:
        for a, b in ((g, {}), ({}, g), (g, g)):
            res.states += 1
            try:
                got = get(make(a, b))
            except Exception as e:
                res.fail(f"cross:{g}:{bool(a)}:{bool(b)}", f"raises {type(e).__name__}: {e}")
                continue
            for q in ref:
                res.transitions += 1
                if not close(got[q], ref[q]):
                    res.fail(f"cross:{g}:{bool(a)}:{bool(b)}:{q}", "the value at a fixed scale changes with the output grid",
                             got=got[q].tolist(), want=ref[q].tolist())
            res.traces += 1


def units(tier):
    out = [("grid", c, p) for c in CONFIGS for p in range(NP)] + [("point", c) for c in CONFIGS]
    out += [("component", "hod", n) for n in sorted(hod.HOD.get_models())]
    out += [("component", "conc", n) for n in sorted(concentration.CMRelation.get_models())]
    out += [("component", "bias", n) for n in sorted(bias.Bias.get_models())]
    out += [("component", "profile", n) for n in sorted(profiles.Profile.get_models())]
    out += [("mass", c) for c in CONFIGS] + [("resolution", c, p) for c in RES for p in range(3)] + [("angle",), ("proj",), ("cross",)]
    return out


def bounds(tier):
    return {"output grids": len(GRIDS), "configurations": len(CONFIGS), "probes": 5, "ordered selections": "all of up to 4 (thorough: 5)"}


def run_unit(u, tier):
    res = Result()
    {"grid": run_grid, "point": run_point, "component": run_component, "mass": run_mass, "angle": run_angle, "resolution": run_resolution,
     "proj": run_proj, "cross": run_cross}[u[0]](u, tier, res)
    res.sample(str(u))
    return res
