"""H23: scale-dependent bias modifies the two-halo term as published."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import DMHaloModel, TracerHaloModel, bias, canon, cross_correlations, grid, integrate_corr, read, same, tools, wdm

id = "H23"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (correlation value x every parameter of the scale-dependent bias) and of (frame"
    "work x exclusion model x halo-centre spectrum x bias convention x redshift x parameters) for the real models, plus all "
    "update histories up to a depth; every separation of the two-halo term is compared with the published correction times "
    "the term without it"
)
level_note = "Exhaustive over the lattices and histories; correlation values cover the range from voids to halo centres."
rule = "state = one configuration or parameter point ; transition = one separation or wavenumber compared ; trace = one configuration or history"
assumptions = ["the two-halo term without a correction is right (H09, H11)", "correlation of the nonlinear matter power is right (H10)"]

MODELS = {"TinkerSD05": dict(a=1.17, b=1.49, c=0.69, d=2.09)}
CLS = {"dm": DMHaloModel, "tr": TracerHaloModel, "proj": integrate_corr.ProjectedCF, "wdm": wdm.TracerHaloModelWDM}
PARAMS = [{}, {"a": 2.0}, {"b": 0.5}, {"c": 1.5}, {"d": 1.0}, {"b": 0.0, "d": 0.0}, {"a": 0.3, "b": 3.0, "c": 0.3, "d": 3.0}, {"a": 0.0, "c": 0.0}]
EXCL = ["NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_", "NgMatched", "NgMatched_"]
HC = ["linear", "nonlinear", "filtered-nl", "filtered-lin"]
XI = np.concatenate([[0.0], -np.geomspace(1e-6, 0.5, 12), np.geomspace(1e-8, 1e6, 60)])


def formula(xi, p):
    return np.sqrt((1 + p["a"] * xi) ** p["b"] / (1 + p["c"] * xi) ** p["d"])


def bounds(tier):
    return {"models": list(MODELS), "parameters": PARAMS, "exclusion": EXCL, "spectra": HC, "correlation values": len(XI),
            "history depth": 2 if tier == "quick" else 3}


def units(tier):
    out = [("formula",)] + [("model", c, e) for c in CLS for e in EXCL] + [("power", c) for c in CLS] + [("names",)]
    return out + [("hist", c, i, 2 if tier == "quick" else 3) for c in CLS for i in range(len(STEPS))]


def run_formula(u, tier, res):
    for name, d in MODELS.items():
        cls = getattr(bias, name)
        pts = [dict(zip(d, v)) for v in itertools.product(*([x * f for f in ((0.0, 1.0, 1.7) if tier == "quick" else (0.0, 0.5, 1.0, 1.3, 2.0))] for x in d.values()))]
        for p in [None] + pts + [{k: v} for k, v in d.items()]:
            for xi in (XI, XI[::-1], XI[5:6], XI.reshape(-1, 1)):
                keep = xi.copy()
                m = cls(xi) if p is None else cls(xi, **p)
                g = m.bias_scale()
                q = {**d, **(p or {})}
                ok = (1 + q["a"] * xi > 0) & (1 + q["c"] * xi > 0)
                e = formula(np.where(ok, xi, 0.0), q)
                res.transitions += xi.size
                if np.shape(g) != xi.shape or not np.allclose(np.where(ok, g, 0), np.where(ok, e, 0), rtol=1e-9):
                    res.fail(f"formula:{name}", f"{name}({p}) gives {np.ravel(g)[:4]} instead of {np.ravel(e)[:4]} for correlations {np.ravel(xi)[:4]}")
                if not np.array_equal(keep, xi):
                    res.fail(f"formula-mutates:{name}", f"{name} changes the correlations it is given")
            res.states += 1
        res.traces += 1
        # no correction where nothing clusters, monotone approach
        g = cls(np.array([0.0])).bias_scale()
        if g[0] != 1:
            res.fail(f"formula-one:{name}", f"{name} is {g[0]} for vanishing correlation")


def sgrid(c, **kw):
    kw = grid(**{**dict(dlog10m=0.2, rnum=8, dr_table=0.2), **kw})
    if c == "wdm":
        kw.update(wdm_mass=2.0, halo_concentration_model="Duffy08WDM")
    return kw


def terms(c):
    return ["matter"] + (["tracer"] if c != "dm" else [])


def run_model(u, tier, res):
    _, c, ex = u
    cls = CLS[c]
    opts = list(itertools.product(PARAMS, HC, (0, 1.3), (True, False)))
    if tier == "quick":
        off = EXCL.index(ex) + 3 * list(CLS).index(c)
        opts = opts[off % 16 :: 16]
    for par, hc, z, unity in opts:
        kw = sgrid(c, exclusion_model=ex, hc_spectrum=hc, z=z, force_unity_dm_bias=unity, bias_model="Tinker10")
        tag = f"{par} {hc} z={z} unity={unity} {ex}"
        a = cls(sd_bias_model="TinkerSD05", sd_bias_params=par, **kw)
        b = cls(**kw)
        r = b._r_table
        e = formula(b.corr_halofit_mm_fnc(r), {**MODELS["TinkerSD05"], **par})
        res.states += 1
        res.traces += 1
        f = np.asarray(a.sd_bias_correction)
        if f.shape != r.shape or not np.allclose(f, e, rtol=1e-7):
            res.fail(f"correction:{c}", f"sd_bias_correction differs from the published one for the nonlinear matter correlation ({tag})")
            continue
        if b.sd_bias is not None or b.sd_bias_correction is not None:
            res.fail(f"none:{c}", "a model without scale-dependent bias has a correction")
        for t in terms(c):
            ca, cb = (getattr(x, f"corr_2h_auto_{t}_fnc")(r) for x in (a, b))
            want = cb * e**2
            if unity and t == "matter":
                want = want / e[-1] ** 2  # the bias on large scales is still unity
            res.transitions += len(r)
            d = np.abs(ca - want)
            # far below the largest value, the transforms leave noise
            if not np.all(d <= 2e-3 * np.abs(want) + 2e-5 * np.abs(cb).max() * e**2):
                i = np.argmax(d / (np.abs(want) + 1e-2 * np.abs(cb).max() * e**2))
                res.fail(f"corr2h:{c}:{t}:{ex}", f"two-halo {t} correlation at r={r[i]:.3g} is {(ca / want)[i]:.5f} of corrected bias squared times the plain one ({tag})")
            g = getattr(a, f"corr_2h_auto_{t}")
            if not np.allclose(g, getattr(a, f"corr_2h_auto_{t}_fnc")(a.r), rtol=1e-9):
                res.fail(f"corr2h-r:{c}:{t}", "corr_2h at r differs from its function")


def run_power(u, tier, res):
    _, c = u
    cls = CLS[c]
    for ex, par, z, hc in itertools.product(EXCL if tier != "quick" else ["NoExclusion", "Sphere", "NgMatched"], PARAMS[:1] + PARAMS[2:3] + PARAMS[5:6], (0, 1.3), ("linear", "nonlinear")):
        kw = sgrid(c, exclusion_model=ex, z=z, hc_spectrum=hc, bias_model="Tinker10", dr_table=0.05 if tier != "quick" else 0.1, hm_logk_min=-3, dlnk=0.1)
        a = cls(sd_bias_model="TinkerSD05", sd_bias_params=par, **kw)
        b = cls(**kw)
        res.states += 1
        res.traces += 1
        for t in terms(c):
            tag = f"{t} {ex} {par} z={z} {hc}"
            p = getattr(a, f"power_2h_auto_{t}")
            k = a.k_hm
            beff = getattr(a, f"bias_effective_{t}")
            if not np.isclose(beff, getattr(b, f"bias_effective_{t}"), rtol=1e-9):
                res.fail(f"beff:{c}:{t}", "effective bias depends on the scale-dependent bias")
            low = k < 0.008
            e = a.power  # on k
            el = np.exp(np.interp(np.log(k[low]), np.log(a.k), np.log(e))) * beff**2
            res.transitions += len(k)
            if not np.allclose(p[low], el, rtol=1e-2):
                res.fail(f"plow:{c}:{t}", f"two-halo power on large scales is {(p[low] / el)[:3]} of linear power times effective bias squared ({tag})")
            mid = (k > 0.013) & (k < 3)
            corr = getattr(a, f"corr_2h_auto_{t}_fnc")
            want = tools.hankel_transform(corr, k[mid], "k", h=0.001)
            if not np.allclose(p[mid], want, rtol=2e-2, atol=2e-3 * np.abs(want).max()):
                res.fail(f"pmid:{c}:{t}", f"two-halo power is not the transform of the two-halo correlation: ratio {(p[mid] / want).min():.4f}..{(p[mid] / want).max():.4f} ({tag})")
            if par == PARAMS[5]:
                pb = getattr(b, f"power_2h_auto_{t}")
                m2 = (k > 0.013) & (k < 0.3)
                if not np.allclose(p[m2], pb[m2], rtol=0.08):
                    res.fail(f"pone:{c}:{t}", f"with a correction of one the two-halo power is {(p / pb)[m2].min():.3f}..{(p / pb)[m2].max():.3f} of the plain one ({tag})")


STEPS = [
    {"sd_bias_model": "TinkerSD05"}, {"sd_bias_model": None}, {"sd_bias_params": {"a": 2.0}}, {"sd_bias_params": {"d": 1.0}}, {"z": 1.0},
    {"sigma_8": 0.7}, {"exclusion_model": "Sphere"}, {"exclusion_model": "NoExclusion"}, {"bias_model": "SMT01"}, {"takahashi": False}, {"dr_table": 0.3},
]
WATCH = ["sd_bias_correction", "corr_2h_auto_matter", "power_2h_auto_matter", "corr_auto_matter"]
TWATCH = ["corr_2h_auto_tracer", "power_2h_auto_tracer", "corr_auto_tracer"]


def run_hist(u, tier, res):
    _, c, first, depth = u
    cls = CLS[c]
    base = sgrid(c, dlog10m=0.5, rnum=3, dr_table=0.4, hmf_model="Tinker10")
    watch = WATCH + (TWATCH if c != "dm" else [])
    memo = {}

    def direct(cfg):
        key = repr(sorted(cfg.items()))
        if key not in memo:
            m = cls(**{**base, **cfg})
            memo[key] = {q: read(m, q) for q in watch}
        return memo[key]

    for start in ({}, {"sd_bias_model": "TinkerSD05"}):
        rest = list(range(len(STEPS)))
        if tier == "quick":
            rest = rest[(first + len(start)) % 2 :: 2]
        for seq in itertools.product(rest, repeat=depth - 1):
            h = cls(**{**base, **start})
            cfg = {k: v for k, v in start.items()}
            for q in watch:
                read(h, q)
            for i in (first, *seq):
                h.update(**STEPS[i])
                for k, v in STEPS[i].items():
                    cfg[k] = {**cfg.get(k, {}), **v} if isinstance(v, dict) else v
                if seq and i % 2:
                    for q in watch:
                        read(h, q)
            e = direct(cfg)
            res.traces += 1
            res.states += 1
            for q in watch:
                res.transitions += 1
                if not same(read(h, q), e[q], rtol=1e-6):
                    res.fail(f"hist:{c}:{q}", f"{q} after {start} and updates {[STEPS[i] for i in (first, *seq)]} differs from a model built with the same settings")


def run_names(u, tier, res):
    for c, cls in CLS.items():
        kw = sgrid(c)
        for good in ("TinkerSD05", bias.TinkerSD05):
            m = cls(sd_bias_model=good, **kw)
            res.transitions += 1
            if type(m.sd_bias).__name__ != "TinkerSD05":
                res.fail(f"names:{c}", f"sd_bias_model={good} gives {type(m.sd_bias).__name__}")
        for bad, par in (("NoSuchBias", {}), ("TinkerSD05", {"nothing": 1})):
            res.transitions += 1
            try:
                cls(sd_bias_model=bad, sd_bias_params=par, **kw).corr_2h_auto_matter
            except Exception:
                continue
            res.fail(f"accepts:{c}", f"sd_bias_model={bad!r}, sd_bias_params={par} is accepted")
        res.traces += 1
        res.states += 1


def run_unit(u, tier):
    res = Result()
    {"formula": run_formula, "model": run_model, "power": run_power, "hist": run_hist, "names": run_names}[u[0]](u, tier, res)
    res.sample(str(u))
    return res
