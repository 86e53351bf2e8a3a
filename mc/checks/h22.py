"""H22: every advertised model can be selected and used end to end."""

from __future__ import annotations

import fnmatch
import itertools
import sys

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel, DMHaloModel, bias, canon, concentration, cross_correlations, grid, halo_exclusion, hod, integrate_corr, profiles, read, same, wdm

id = "H22"
level = "model_checking"
technique = (
    "explicit enumeration of every registered component of every kind (by name, class and derived class), of all pairs of "
    "components of different kinds, of every parameter of every component (perturbed) and of unknown models and parameters, "
    "each built inside the real frameworks; every quantity of every framework is read and judged for finiteness, shape and sign"
)
level_note = "Exhaustive over the registered components, their pairs and parameters on a coarse grid."
rule = "state = one selection of components ; transition = one quantity judged ; trace = one model built"
assumptions = ["components from hmf work", "grids are coarse; resolution is not part of the property"]

KIND = {
    "bias_model": bias.Bias,
    "sd_bias_model": bias.ScaleDepBias,
    "halo_concentration_model": concentration.CMRelation,
    "halo_profile_model": profiles.Profile,
    "hod_model": hod.HOD,
    "exclusion_model": halo_exclusion.Exclusion,
    "tracer_profile_model": profiles.Profile,
    "tracer_concentration_model": concentration.CMRelation,
}
CLS = {"dm": DMHaloModel, "tr": TracerHaloModel, "proj": integrate_corr.ProjectedCF, "ang": integrate_corr.AngularCF, "wdm": wdm.TracerHaloModelWDM}
TRACERKIND = {"hod_model", "tracer_profile_model", "tracer_concentration_model"}
#: what the package advertised when the property was written; new ones are explored too
ADVERTISED = {
    "bias_model": "UnityBias Mo96 Jing98 ST99 SMT01 Seljak04 Seljak04Cosmo Tinker05 Mandelbaum05 Pillepich10 Manera10 Tinker10 Tinker10PBSplit".split(),
    "sd_bias_model": ["TinkerSD05"],
    "halo_concentration_model": "Bullock01 Bullock01Power Maccio07 Duffy08 Zehavi11 Ludlow16 Ludlow16Empirical".split(),
    "halo_profile_model": "NFW NFWInf Hernquist HernquistInf Moore MooreInf Constant GeneralizedNFW GeneralizedNFWInf Einasto CoredNFW PowerLawWithExpCut".split(),
    "hod_model": "Zehavi05 Zheng05 Contreras13 Geach12 Tinker05 Zehavi05WithMax Zehavi05Marked ContinuousPowerLaw Constant Spinelli19 Leauthaud11".split(),
    "exclusion_model": "NoExclusion Sphere DblSphere DblSphere_ DblEllipsoid DblEllipsoid_ NgMatched NgMatched_".split(),
}
ADVERTISED["tracer_profile_model"] = ADVERTISED["halo_profile_model"]
ADVERTISED["tracer_concentration_model"] = ADVERTISED["halo_concentration_model"]
SKIP = {"_growth_factor_fn"}  # internal to hmf, absent for some growth models

M = ("m",)
SHAPE = {q: ("m",) for q in "m dndm halo_bias cmz_relation tracer_cmz_relation central_occupation satellite_occupation total_occupation ngtm rho_gtm nu sigma fsigma n_eff".split()}
SHAPE |= {q: ("k",) for q in "k power nonlinear_power transfer_function".split()}
SHAPE |= {"halo_profile_ukm": ("k", "m"), "tracer_profile_ukm": ("k", "m"), "halo_profile_rho": ("rt", "m"), "tracer_profile_rho": ("rt", "m"),
          "halo_profile_lam": ("rt", "m"), "tracer_profile_lam": ("rt", "m"), "r": ("r",), "k_hm": ("khm",)}
SHAPE |= {q: ("khm",) for q in "power_1h_auto_matter power_2h_auto_matter power_auto_matter power_1h_auto_tracer power_1h_cs_auto_tracer power_1h_ss_auto_tracer power_2h_auto_tracer power_auto_tracer power_1h_cross_tracer_matter power_2h_cross_tracer_matter power_cross_tracer_matter".split()}
SHAPE |= {q: ("r",) for q in "corr_linear_mm corr_halofit_mm corr_1h_auto_matter corr_2h_auto_matter corr_auto_matter corr_1h_auto_tracer corr_1h_cs_auto_tracer corr_1h_ss_auto_tracer corr_2h_auto_tracer corr_auto_tracer corr_1h_cross_tracer_matter corr_2h_cross_tracer_matter corr_cross_tracer_matter".split()}
SHAPE |= {q: () for q in "mean_tracer_den bias_effective_tracer bias_effective_matter mass_effective satellite_fraction central_fraction".split()}
NONNEG = ("m dndm ngtm rho_gtm power nonlinear_power central_occupation satellite_occupation total_occupation halo_profile_rho tracer_profile_rho "
          "halo_profile_lam tracer_profile_lam mean_tracer_den satellite_fraction central_fraction mass_effective cmz_relation tracer_cmz_relation").split()
KEYQ = "mean_tracer_den bias_effective_tracer power_auto_tracer corr_auto_tracer power_auto_matter corr_1h_auto_matter power_1h_cross_tracer_matter total_occupation cmz_relation tracer_cmz_relation".split()


def names(kind):
    seen = list(ADVERTISED[kind])
    mod = sys.modules[KIND[kind].__module__]
    for n, v in vars(mod).items():
        if isinstance(v, type) and issubclass(v, KIND[kind]) and n in getattr(KIND[kind], "_plugins", {}) and n not in seen:
            seen.append(n)
    return seen


def bounds(tier):
    return {"components": {k: names(k) for k in KIND}, "pairs": "all" if tier != "quick" else "a sixth", "frameworks": list(CLS), "redshifts": [0, 1.5]}


def units(tier):
    out = [("single", k, n) for k in KIND for n in names(k)]
    kinds = list(KIND)
    out += [("pairs", a, n) for a in kinds[:-1] for n in names(a)]
    out += [("params", k, n) for k in KIND if k not in ("tracer_profile_model", "tracer_concentration_model") for n in names(k)]
    return out + [("reject", k) for k in KIND] + [("colossus",), ("cross",), ("derived",)]


def vgrid(c, **kw):
    kw = grid(**{**dict(dlog10m=0.25, rnum=4, dr_table=0.25), **kw})
    if c == "wdm":
        kw.setdefault("wdm_mass", 2.0)
        kw.setdefault("halo_concentration_model", "Duffy08")
    if c == "proj":
        kw.update(rp_min=0.3, rp_max=10, rp_num=3)
    if c == "ang":
        kw.update(theta_min=1e-3, theta_max=0.02, theta_num=3, p_of_z=True)
        kw["z"] = 0.25 if not kw.get("z") else kw["z"]
    return kw


def dims(h):
    return {"m": len(h.m), "k": len(h.k), "r": len(h.r), "rt": len(h._r_table), "khm": len(h.k_hm)}


def judge(res, h, q, tag, key, D):
    res.transitions += 1
    try:
        v = getattr(h, q)
    except Exception as e:
        if isinstance(e, AttributeError) and q in ("power_1h_cs_auto_tracer", "power_1h_ss_auto_tracer", "corr_1h_cs_auto_tracer", "corr_1h_ss_auto_tracer"):
            return None  # documented: may not exist for every tracer
        res.fail(f"raise:{key}:{q}", f"{q} raises {type(e).__name__}: {str(e)[:150]} for {tag}")
        return None
    if isinstance(v, (float, np.floating, np.ndarray)) and getattr(v, "dtype", np.dtype(float)).kind == "f":
        if not np.all(np.isfinite(v)):
            res.fail(f"finite:{key}:{q}", f"{q} is not finite in {np.sum(~np.isfinite(v))} of {np.size(v)} places for {tag}")
        if q in NONNEG and np.any(np.asarray(v) < 0):
            res.fail(f"sign:{key}:{q}", f"{q} is negative in {np.sum(np.asarray(v) < 0)} places for {tag}")
    if q == "central_occupation" and np.ndim(v) == 0 and issubclass(type(getattr(h, "hod", None)), hod.HODNoCentral):
        return v  # no concept of a central
    if q in SHAPE and v is not None and not callable(v) and np.shape(v) != tuple(D[d] for d in SHAPE[q]):
        res.fail(f"shape:{key}:{q}", f"{q} has shape {np.shape(v)} instead of {SHAPE[q]}={tuple(D[d] for d in SHAPE[q])} for {tag}")
    return v


def run_single(u, tier, res):
    _, kind, name = u
    cls0 = getattr(sys.modules[KIND[kind].__module__], name, None)
    for c, cls in CLS.items():
        if c == "dm" and kind in TRACERKIND:
            continue
        for z in (0, 1.5):
            if tier == "quick" and (c in ("proj", "ang", "wdm") and (z or list(CLS).index(c) - 2 != names(kind).index(name) % 3) or c == "dm" and z):
                continue
            kw = vgrid(c, z=z)
            tag = f"{cls.__name__}({kind}={name}, z={z})"
            try:
                h = cls(**{**kw, kind: name})
                D = dims(h)
            except Exception as e:
                res.fail(f"build:{kind}:{name}", f"{tag} cannot be built: {type(e).__name__}: {e}")
                continue
            res.states += 1
            res.traces += 1
            qs = [q for q in cls.quantities_available() if q not in SKIP]
            extra = {"proj": ["projected_corr_gal"], "ang": ["angular_corr_gal"]}.get(c, [])
            for q in qs + [q for q in SHAPE if q not in qs and hasattr(type(h), q)] + extra:
                judge(res, h, q, tag, f"{kind}:{name}", D)
            got = getattr(h, kind)
            if got.__name__ != name and not name.startswith("Ludlow2016"):
                res.fail(f"name:{kind}:{name}", f"{tag} uses {got.__name__}")
            if z == 0 and c in ("dm", "tr"):
                g = cls(**{**kw, kind: cls0})
                watch = KEYQ if c == "tr" else ["power_auto_matter", "cmz_relation", "halo_bias", "corr_auto_matter"]
                for q in watch:
                    res.transitions += 1
                    if not same(read(h, q), read(g, q), rtol=1e-9):
                        res.fail(f"byclass:{kind}:{name}", f"{q} differs between {kind} given by name and by class")


def run_pairs(u, tier, res):
    _, ka, na = u
    kinds = list(KIND)
    cnt = 0
    for kb in kinds[kinds.index(ka) + 1 :]:
        for nb in names(kb):
            cnt += 1
            if tier == "quick" and (cnt + names(ka).index(na)) % 6:
                continue
            if {na, nb} & {"Ludlow16", "Ludlow2016"} and "Constant" in (na, nb) and "hod_model" not in (ka, kb):
                continue  # a concentration from the shape of the profile, which has none
            kw = vgrid("tr", dlog10m=0.5, rnum=3, dr_table=0.4)
            if ka == "bias_model":
                kw["hmf_model"] = "Tinker10"
            tag = f"{ka}={na}, {kb}={nb}"
            try:
                h = TracerHaloModel(**{**kw, ka: na, kb: nb})
                D = dims(h)
            except Exception as e:
                res.fail(f"pair:{ka}:{na}:{kb}:{nb}", f"{tag} cannot be built: {type(e).__name__}: {e}")
                continue
            res.states += 1
            res.traces += 1
            for q in KEYQ:
                judge(res, h, q, tag, f"pair:{ka}:{na}:{kb}:{nb}", D)


#: parameters which are in no statistic watched here, and why
NOEFFECT = {
    ("Tinker10PBSplit", "alpha_*"): "the normalisation of the mass function, not in the bias",
    ("Tinker10PBSplit", "*_exp"): "known finding of H14: the redshift is not passed on",
    ("Tinker10PBSplit", "max_z"): "known finding of H14: the redshift is not passed on",
    ("Contreras13", "M_0"): "not in the formulae",
    ("Geach12", "M_0"): "not in the formulae",
    ("ContinuousPowerLaw", "sigma_A"): "a scatter, only drawn by populate",
    ("Constant", "sigma_A"): "a scatter, only drawn by populate",
    ("Spinelli19", "sigma_A"): "a scatter, only drawn by populate",
    ("Spinelli19", "*_counts"): "number counts, only drawn by populate",
    ("Spinelli19", "a"): "not in the formulae",
    ("Spinelli19", "b"): "not in the formulae",
    ("Spinelli19", "eta"): "not in the formulae",
    ("Spinelli19", "M_min"): "below the grid; the cut is not sharp",
    ("Spinelli19", "M_max"): "not in the formulae",
    ("Leauthaud11", "M_min"): "documented as not meaningful; derived from the others",
}
#: values far enough from the default to matter on the grid
VALUES = {"M_max": [13.0], "M_1": [12.5, -2.5], "max_z": [1.0]}


def noeffect(name, p):
    return any(n == name and fnmatch.fnmatchcase(p, q) for n, q in NOEFFECT)


def perturb(p, v):
    if p in VALUES:
        return [VALUES[p][-1 if isinstance(v, float) and v < 0 else 0]]
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, (int, float, np.floating, np.integer)):
        return [v * 1.07 if v else 0.05, v * 0.95 if v else 0.1]
    return []


def settings(kind, name, p):
    """The settings in which the parameter of a component matters."""
    if name == "Tinker10PBSplit" and p.split("_")[-1].isdigit():
        return [{"hmf_model": "Tinker10", "mdef_model": "SOMean", "mdef_params": {"overdensity": int(p.split("_")[-1])}}]
    if name == "Leauthaud11" and (p.endswith("_a") or p == "redshift"):
        return [{"hod_params": {"redshift": 0.4, "smhm_m1_a": 0.3}}]
    if kind in ("bias_model", "halo_concentration_model"):
        return [{}, {"z": 1.5}]
    return [{}]


def run_params(u, tier, res):
    _, kind, name = u
    cls0 = getattr(sys.modules[KIND[kind].__module__], name)
    pk = kind[: -len("model")] + "params"
    defaults = getattr(cls0, "_defaults", {})
    for bad in ({"no_such_parameter": 1.0}, {**{k: v for k, v in list(defaults.items())[:1]}, "nothing": None}):
        res.transitions += 1
        try:
            h = TracerHaloModel(**vgrid("tr", **{kind: name, pk: bad}))
            for q in KEYQ:
                getattr(h, q)
        except Exception:
            continue
        res.fail(f"badparam:{kind}:{name}", f"{name} accepts the unknown parameter of {bad}")
    watch = KEYQ + ["halo_bias", "corr_2h_auto_tracer", "halo_profile_ukm", "tracer_profile_rho"]
    base = {}
    comp = {"bias_model": "bias", "hod_model": "hod", "halo_profile_model": "halo_profile", "halo_concentration_model": "halo_concentration"}.get(kind)
    for ip, (p, v) in enumerate(defaults.items()):
        if tier == "quick" and name == "Tinker10PBSplit" and (ip % 3 or noeffect(name, p)):
            continue
        effect = False
        for new in perturb(p, v)[: 1 if tier == "quick" else None]:
            for extra in settings(kind, name, p):
                kw = vgrid("tr", **{"dlog10m": 0.5, "rnum": 3, "dr_table": 0.4, kind: name, **extra})
                kw[pk] = dict(kw.get(pk, {}))
                h = TracerHaloModel(**{**kw, pk: {**kw[pk], p: new}})
                D = dims(h)
                res.states += 1
                res.traces += 1
                vals = {q: judge(res, h, q, f"{name}({p}={new})", f"{kind}:{name}:{p}", D) for q in watch}
                if comp and getattr(h, comp).params.get(p) != new and (name, p) != ("Leauthaud11", "M_min"):
                    res.fail(f"param:{kind}:{name}:{p}", f"{name} built with {p}={new} has {p}={getattr(h, comp).params.get(p)}")
                if noeffect(name, p) or effect:
                    continue
                si = repr(sorted(extra.items()))
                if si not in base:
                    h0 = TracerHaloModel(**kw)
                    base[si] = {q: read(h0, q) for q in watch}
                effect = any(not same(canon(x), canon(base[si][q]), rtol=1e-12) for q, x in vals.items())
        if perturb(p, v) and not effect and not noeffect(name, p):
            res.fail(f"inert:{kind}:{name}:{p}", f"changing {p} of {name} from {v} to {perturb(p, v)} changes nothing")


def run_reject(u, tier, res):
    kind = u[1]
    wrong = ["NoSuchModel", "", "nfw_", 3, int, object, TracerHaloModel, hod.Zheng05 if kind != "hod_model" else bias.Tinker10]
    if kind not in ("sd_bias_model", "tracer_profile_model", "tracer_concentration_model", "exclusion_model"):
        wrong.append(None)
    for w in wrong:
        for how in ("init", "update"):
            res.transitions += 1
            try:
                if how == "init":
                    h = TracerHaloModel(**vgrid("tr", **{kind: w}))
                else:
                    h = TracerHaloModel(**vgrid("tr"))
                    h.update(**{kind: w})
                vals = [getattr(h, q) for q in KEYQ] + [h.sd_bias_correction, h.corr_2h_auto_tracer]
            except Exception:
                continue
            res.fail(f"accepts:{kind}:{w}", f"{kind}={w!r} is accepted ({how})")
        res.states += 1
    for c, cls in CLS.items():
        res.transitions += 1
        try:
            h = cls(**vgrid(c, no_such_parameter=1))
            h.dndm
        except Exception:
            continue
        res.fail(f"accepts-parameter:{c}", f"{cls.__name__} accepts no_such_parameter=1")


def run_colossus(u, tier, res):
    for f, kind, models in ((bias.make_colossus_bias, "bias_model", ["cole89", "sheth01", "tinker10", "pillepich10", "bhattacharya11", "comparat17"]),
                            (concentration.make_colossus_cm, "halo_concentration_model", ["bullock01", "duffy08", "klypin11", "prada12", "bhattacharya13", "dutton14", "diemer15", "diemer19"])):
        for mdl in models:
            if "tinker10" == mdl or "pillepich10" == mdl:
                pass
            kw = dict(model=mdl)
            try:
                cls = f(**kw)
                h = TracerHaloModel(**vgrid("tr", **{kind: cls, "hmf_model": "Tinker10"}))
                D = dims(h)
            except Exception as e:
                res.fail(f"colossus:{mdl}", f"{kind} from colossus' {mdl} cannot be used: {type(e).__name__}: {e}")
                continue
            res.states += 1
            res.traces += 1
            for q in KEYQ + ["halo_bias"]:
                judge(res, h, q, f"{kind}=colossus {mdl}", f"colossus:{mdl}", D)


def run_cross(u, tier, res):
    for n, v in vars(cross_correlations).items():
        if not (isinstance(v, type) and issubclass(v, cross_correlations._HODCross)) or v is cross_correlations._HODCross:
            continue
        for h1, h2 in itertools.product(("Zehavi05", "Zheng05", "Contreras13"), repeat=2):
            for sel in (n, v):
                c = cross_correlations.CrossCorrelations(cross_hod_model=sel, halo_model_1_params=vgrid("tr", hod_model=h1), halo_model_2_params=vgrid("tr", hod_model=h2))
                res.states += 1
                res.traces += 1
                for q in ("power_1h_cross", "corr_1h_cross", "power_2h_cross", "corr_2h_cross", "power_cross", "corr_cross"):
                    res.transitions += 1
                    x = getattr(c, q)
                    want = len(c.halo_model_1.k_hm if q.startswith("power") else c.halo_model_1.r)
                    if not np.all(np.isfinite(x)) or np.shape(x) != (want,):
                        res.fail(f"cross:{n}:{q}", f"{q} has shape {np.shape(x)} or is not finite for {h1} x {h2}")
    for bad in ("NoSuchCross", None, int):
        res.transitions += 1
        try:
            cross_correlations.CrossCorrelations(cross_hod_model=bad, halo_model_1_params=vgrid("tr"), halo_model_2_params=vgrid("tr")).power_1h_cross
        except Exception:
            continue
        res.fail("cross-accepts", f"cross_hod_model={bad!r} is accepted")


def run_derived(u, tier, res):
    """A user's class, derived from an offered one, can be used by class and by its name."""
    for kind in ("bias_model", "hod_model", "halo_profile_model", "halo_concentration_model", "exclusion_model", "sd_bias_model", "tracer_profile_model", "tracer_concentration_model"):
        for n in names(kind):
            if n == "NoExclusion":
                continue  # a class derived from it is an exclusion like any other: transformed numerically
            base = getattr(sys.modules[KIND[kind].__module__], n)
            new = type("My" + n, (base,), {"_defaults": dict(base._defaults)})
            a = TracerHaloModel(**vgrid("tr", **{kind: base, "hmf_model": "Tinker10"}))
            ref = {q: read(a, q) for q in KEYQ}
            for sel in (new, "My" + n):
                res.states += 1
                res.traces += 1
                try:
                    h = TracerHaloModel(**vgrid("tr", **{kind: sel, "hmf_model": "Tinker10"}))
                except Exception as e:
                    res.fail(f"derived:{kind}:{n}", f"a class derived from {n} cannot be selected as {sel}: {type(e).__name__}: {e}")
                    continue
                for q in KEYQ:
                    res.transitions += 1
                    if not same(read(h, q), ref[q], rtol=1e-9):
                        res.fail(f"derived:{kind}:{n}", f"{q} of a class derived from {n} (selected as {sel}) differs")


def run_unit(u, tier):
    res = Result()
    {"single": run_single, "pairs": run_pairs, "params": run_params, "reject": run_reject, "colossus": run_colossus, "cross": run_cross, "derived": run_derived}[u[0]](u, tier, res)
    res.sample(str(u))
    return res
