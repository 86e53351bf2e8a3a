"""H24: unsupported settings are refused, doubtful ones warned about, supported ones taken silently."""

from __future__ import annotations

import itertools
import re
import warnings

import numpy as np

from ..core import Result
from ..impl import (
    DMHaloModel, TracerHaloModel, bias, concentration, cross_correlations, grid, hod, integrate_corr,
    profiles, tools, wdm,
)

id = "H24"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (setting x values just inside, at and just outside its documented "
    "limit x way of setting it x framework), executed on the real code against an independent table of "
    "what is refused, what is warned about and what is accepted silently"
)
level_note = "Exhaustive over the listed settings, values and routes; the wording of messages is only matched by a keyword."
rule = "state = one setting given one value by one route; transition = one attempt executed; trace = one attempt judged"
assumptions = ["hmf's own settings are validated by hmf"]

CLS = {
    "dm": DMHaloModel, "tr": TracerHaloModel, "proj": integrate_corr.ProjectedCF,
    "ang": integrate_corr.AngularCF, "wdm": wdm.HaloModelWDM, "twdm": wdm.TracerHaloModelWDM,
}
TRACER = ("tr", "proj", "ang", "twdm")
MODELS = [
    "bias_model", "halo_profile_model", "halo_concentration_model", "sd_bias_model", "exclusion_model",
    "hmf_model", "transfer_model",
]
TMODELS = ["hod_model", "tracer_profile_model", "tracer_concentration_model"]
PARAMS = [
    "bias_params", "halo_profile_params", "halo_concentration_params", "sd_bias_params", "exclusion_params",
    "colossus_params",
]
TPARAMS = ["hod_params", "tracer_profile_params", "tracer_concentration_params"]
BAD, OK = "refused", "accepted"


def settings(c):
    """(settings, expected, base)"""
    tr = c in TRACER
    out = []
    for m in MODELS + (TMODELS if tr else []):
        out += [({m: "NoSuchModel"}, BAD, {}), ({m: 3}, BAD, {}), ({m: TracerHaloModel}, BAD, {})]
    # a component of another kind is no model of this kind
    out += [({"bias_model": "NFW"}, BAD, {}), ({"halo_profile_model": "Tinker10"}, BAD, {})]
    if tr:
        out += [({"hod_model": "Duffy08"}, BAD, {}), ({"tracer_profile_model": "Zehavi05"}, BAD, {})]
    for p in PARAMS + (TPARAMS if tr else []):
        for v in ([1], "a", 5, (("a", 1),)):
            out.append(({p: v}, BAD, {}))
        for v in ({}, None):
            out.append(({p: v}, OK, {}))
    for p in PARAMS[:3] + (TPARAMS[:1] if tr else []):
        out.append(({p: {"no_such_parameter": 1.0}}, "late", {}))
    for v in ("linear", "nonlinear", "filtered-lin", "filtered-nl"):
        out.append(({"hc_spectrum": v}, OK, {}))
    for v in ("Linear", "nonlinear ", "filtered", "", None, "halofit", 1):
        out.append(({"hc_spectrum": v}, BAD, {}))
    if c not in ("proj", "ang"):  # their separations are derived
        for lo, hi in itertools.product((0.5, 5.0, 50.0), (0.5, 4.999, 5.0, 5.001, 50.0)):
            out.append(({"rmin": lo}, OK if lo < hi else BAD, {"rmin": 0.1, "rmax": hi}))
            out.append(({"rmax": hi}, OK if lo < hi else BAD, {"rmin": lo, "rmax": 90.0}))
        for n in (0, 1, 2, 7):
            out.append(({"rnum": n}, OK if n else BAD, {}))
        out.append(({"rmin": [1.0, 200.0]}, OK, {}))
        out.append(({"rmin": np.array([1.0])}, OK, {}))
        out.append(({"rmin": []}, BAD, {}))
    for lo, hi in itertools.product((-1.0, 0.0, 1.0), (-1.0, 0.0, 1.0)):
        out.append(({"hm_logk_min": lo}, OK if lo < hi else BAD, {"hm_logk_min": -2.0, "hm_logk_max": hi}))
        out.append(({"hm_logk_max": hi}, OK if lo < hi else BAD, {"hm_logk_min": lo, "hm_logk_max": 2.0}))
    if tr:
        # a sharp occupation needs two mass bins: 10, 10.25, .., 14.5, 14.75
        for v in (9.0, 10.0, 13.0, 14.2, 14.4, 14.49, 14.51, 14.6, 14.7, 14.76, 15.0, 20.0):
            out.append(({"hod_params": {"M_min": v}}, OK if v < 14.5 else BAD, {"hod_model": "Zehavi05"}))
        out.append(({"hod_params": {"M_min": 15.5}}, OK, {"hod_model": "Zheng05"}))  # not a sharp cut
    if c == "proj":
        for n in (-1, -20, 1, 3):
            out.append(({"rp_num": n}, OK if n > 0 else BAD, {}))
    if c == "ang":
        for v in (-1.0, -1e-9, 1e-6, 0.01):
            out.append(({"theta_min": v}, OK if v > 0 else BAD, {"theta_max": 0.5}))
        for v in (0.1, 1.0, 180.0, 180.1, 1e4):
            out.append(({"theta_max": v}, OK if v <= 180 else BAD, {}))
        for lo, hi in itertools.product((0.01, 0.02, 0.03), repeat=2):
            if lo != hi:
                for log in (True, False):
                    out.append(({"theta_min": lo}, OK if lo < hi else "late", {"theta_min": 0.001, "theta_max": hi, "theta_log": log}))
    if c in ("wdm", "twdm"):
        out += [({"wdm_model": "NoSuchModel"}, BAD, {}), ({"wdm_model": "Viel05"}, OK, {}), ({"wdm_params": [1]}, BAD, {})]
    return out


def flat(z):
    return np.ones_like(z) / 0.2


def base(c):
    d = grid()
    if c == "ang":
        d.update(p1=flat, zmin=0.3, zmax=0.5, z=0.4, theta_min=0.001, theta_max=0.1, theta_num=3, znum=5, unum=9)
    if c in ("proj", "ang"):
        d.pop("rmin"), d.pop("rmax")
    if c == "proj":
        d.update(rp_num=3)
    return d


#: what must be touched for a refusal that can only come on use
USE = {
    "bias_params": lambda h: h.bias, "halo_profile_params": lambda h: h.halo_profile,
    "halo_concentration_params": lambda h: h.halo_concentration, "hod_params": lambda h: h.hod,
    "theta_min": lambda h: h.theta,
}


def attempt(route, c, b, s):
    kls = CLS[c]
    try:
        if route == "new":
            h = kls(**{**b, **s})
        else:
            h = kls(**b)
            if route == "update":
                h.update(**s)
            elif route == "clone":
                h = h.clone(**s)
            else:
                for k, v in s.items():
                    setattr(h, k, v)
        for k in s:
            if k in USE:
                USE[k](h)
    except Exception as e:
        return e, None
    return None, h


def run_setting(u, tier, res):
    _, c, route = u
    for i, (s, want, extra) in enumerate(settings(c)):
        b = {**base(c), **extra}
        res.states += 1
        res.transitions += 1
        res.traces += 1
        (k, v), = s.items()
        key = f"setting:{c}:{route}:{k}={v!r}:{','.join(f'{a}={x}' for a, x in extra.items())}"
        e, h = attempt(route, c, b, s)
        if want == OK and e is not None:
            res.fail(key, f"a supported setting is refused: {type(e).__name__}: {e}")
        elif want != OK and e is None:
            res.fail(key, f"an unsupported setting is accepted as {getattr(h, k, None)!r}")


# ------------------------------------------------------------------------------ component calls
def conc(**kw):
    import hmf

    return concentration.Duffy08(cosmo=hmf.Cosmology(), mdef=None, **kw)


def calls():
    """(name, function, expected)"""
    import hmf
    from hmf.halos.mass_definitions import SOMean

    cm = concentration.Duffy08(cosmo=hmf.Cosmology(), mdef=SOMean())
    out = []
    r, k, m = np.array([0.05, 0.1]), np.array([0.1, 1.0]), np.array([1e12, 1e13, 1e14])
    for n in sorted(profiles.Profile.get_models()):
        p = profiles.Profile.get_models()[n](cm, mdef=SOMean())
        for norm in (None, "m", "rho", "M", "mass", 1):
            out.append((f"{n}.rho(norm={norm})", lambda p=p, norm=norm: p.rho(r, m, norm=norm), OK if norm in (None, "m", "rho") else BAD))
            if n != "Einasto":
                out.append((f"{n}.u(norm={norm})", lambda p=p, norm=norm: p.u(k, m, norm=norm), OK if norm in (None, "m") else BAD))
            if p.has_lam:
                out.append((f"{n}.lam(norm={norm})", lambda p=p, norm=norm: p.lam(r, m, norm=norm), OK if norm in (None, "m") else BAD))
        if not p.has_lam:
            out.append((f"{n}.lam()", lambda p=p: p.lam(r, m), BAD))
        for co in ("r", "x", "s", "k", "R", "kappa", None):
            out.append((f"{n}.rho(coord={co})", lambda p=p, co=co: p.rho(r, m, coord=co), OK if co in ("r", "x", "s") else BAD))
            if n == "NFW":
                out.append((f"{n}.cdf(coord={co})", lambda p=p, co=co: p.cdf(r, m=m, coord=co), OK if co in ("r", "x", "s") else BAD))
        for co in ("k", "kappa", "r", "s", None):
            if n != "Einasto":
                out.append((f"{n}.u(coord={co})", lambda p=p, co=co: p.u(k, m, coord=co), OK if co in ("k", "kappa") else BAD))
    nfw = profiles.NFW(cm, mdef=SOMean())
    out += [
        ("virial_velocity()", lambda: nfw.virial_velocity(), BAD),
        ("virial_velocity(m)", lambda: nfw.virial_velocity(m=m), OK),
        ("virial_velocity(r)", lambda: nfw.virial_velocity(r=r), OK),
    ]
    one = lambda x: np.ones_like(x)  # noqa: E731
    for v in ("k", "r", "x", "K", "kk"):
        out.append((f"hankel_transform({v})", lambda v=v: tools.hankel_transform(lambda x: x * np.exp(-x), r, v), OK if v in ("k", "r") else BAD))
    x = np.array([1.0, 2.0, 3.0, 4.0, 5.0])
    for lo, hi in itertools.product((0.5, 1.0, 1.5), (4.5, 5.0, 5.5)):
        out.append((f"ExtendedSpline(domain=({lo},{hi}))", lambda lo=lo, hi=hi: tools.ExtendedSpline(x, x**2, domain=(lo, hi)), OK if lo <= 1 and hi >= 5 else BAD))
    for f in (None, "power_law", "boundary", one, "power-law", "zero", 3):
        good = f is None or callable(f) or f in ("power_law", "boundary")
        out.append((f"ExtendedSpline(lower={f if not callable(f) else 'f'})", lambda f=f: tools.ExtendedSpline(x, x**2, lower_func=f), OK if good else BAD))
        out.append((f"ExtendedSpline(upper={f if not callable(f) else 'f'})", lambda f=f: tools.ExtendedSpline(x, x**2, upper_func=f), OK if good else BAD))
    out.append(("ExtendedSpline(power law, x<0)", lambda: tools.ExtendedSpline(x - 3, x**2, lower_func="power_law"), BAD))
    hh = [hod.Zehavi05(), hod.Zheng05(), hod.Zehavi05()]
    for n in range(4):
        out.append((f"ConstantCorr({n} hods)", lambda n=n: cross_correlations.ConstantCorr(hh[:n]), OK if n == 2 else BAD))
    for n in sorted(hod.HOD.get_models()):
        out.append((f"{n}(no_such)", lambda n=n: hod.HOD.get_models()[n](no_such=1), BAD))
    for n in sorted(bias.Bias.get_models()):
        out.append((f"{n}(no_such)", lambda n=n: bias.Bias.get_models()[n](nu=x, no_such=1), BAD))
    for n in sorted(concentration.CMRelation.get_models()):
        if "Ludlow2016" not in n:
            out.append((f"{n}(no_such)", lambda n=n: concentration.CMRelation.get_models()[n](cosmo=hmf.Cosmology(), no_such=1), BAD))
    return out


def run_calls(u, tier, res):
    for name, f, want in calls():
        res.states += 1
        res.transitions += 1
        res.traces += 1
        try:
            got = f()
        except Exception as e:
            if want == OK:
                res.fail(f"call:{name}", f"a supported call is refused: {type(e).__name__}: {e}")
            continue
        if want == BAD:
            res.fail(f"call:{name}", f"an unsupported call is accepted: {str(got)[:80]}")


# ------------------------------------------------------------------------------ warnings
NORMALISED = {"PS", "SMT", "Peacock", "Manera", "Tinker10", "Tinker08", "Jenkins", "Warren", "Behroozi", "Watson"}
UNNORMALISED = {"Tinker08", "Jenkins", "Warren", "Behroozi", "Watson"}
NORMALISED -= UNNORMALISED
PAIRS = {
    "Mandelbaum05": {"SMT"}, "Manera10": {"Manera"}, "Mo96": {"PS"}, "SMT01": {"SMT"}, "ST99": {"SMT"},
    "Tinker05": {"SMT"}, "Tinker10PBSplit": {"Tinker10"}, "UnityBias": NORMALISED, "Jing98": set(),
    "Pillepich10": set(), "Seljak04": set(), "Seljak04Cosmo": set(), "Tinker10": set(),
}
NATIVE = {
    "Bullock01": {"200c"}, "Bullock01Power": {"200c"}, "Maccio07": {"200m"}, "Duffy08": {"200c", "200m", "vir"},
    "Zehavi11": {"200c"}, "Ludlow16": {"200c"}, "Ludlow16Empirical": {"200c"},
}


def warned(f):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f()
    return [str(x.message) for x in w]


def judge(res, key, msgs, pattern, want):
    res.states += 1
    res.transitions += 1
    res.traces += 1
    hit = [m for m in msgs if re.search(pattern, m, re.I)]
    if want and not hit:
        res.fail(key, f"no warning matching '{pattern}' is given (warnings: {[m[:60] for m in msgs]})")
    elif hit and not want:
        res.fail(key, f"a warning is given without reason: {hit[0][:120]}")


def run_warn_norm(u, tier, res):
    bn = u[1]
    for hn in sorted(NORMALISED | UNNORMALISED):
        for q in ("power_2h_auto_matter", "corr_2h_auto_matter"):
            for route in ("new", "update"):
                b = grid(hmf_model=hn, bias_model=bn) if route == "new" else grid(hmf_model="PS", bias_model="Mo96")

                def use(b=b, q=q, route=route, hn=hn):
                    h = DMHaloModel(**b)
                    if route == "update":
                        h.update(hmf_model=hn, bias_model=bn)
                    getattr(h, q)

                msgs = warned(use)
                judge(res, f"norm:{bn}:{hn}:{q}:{route}", msgs, "un-?normali[sz]ed mass function \\(", hn in UNNORMALISED)
                judge(res, f"pair:{bn}:{hn}:{q}:{route}", msgs, "pair", hn not in PAIRS[bn])


def run_warn(u, tier, res):
    import hmf
    from hmf.halos import mass_definitions as md

    for c in ("dm", "tr"):
        for v in (1.0, 100.0, 316.0, 316.3, 1000.0):
            for route in ("new", "update", "set"):
                def use(c=c, v=v, route=route):
                    e, _ = attempt(route, c, base(c), {"rmax": v})
                    if e:
                        raise e
                judge(res, f"rmax:{c}:{route}:{v}", warned(use), "interpolation table", v > 10**2.5)
        for hc in ("linear", "nonlinear", "filtered-lin", "filtered-nl"):
            h = CLS[c](**grid(hc_spectrum=hc))
            for q in ("power_2h_auto_matter",) + (("power_2h_auto_tracer",) if c == "tr" else ()):
                h = CLS[c](**grid(hc_spectrum=hc))
                judge(res, f"hc:{c}:{hc}:{q}", warned(lambda h=h, q=q: getattr(h, q)), "halofit", hc == "nonlinear")
    defs = {"200m": md.SOMean(), "200c": md.SOCritical(), "vir": md.SOVirial(), "300m": md.SOMean(overdensity=300), "500c": md.SOCritical(overdensity=500)}
    for n, d in itertools.product(NATIVE, defs):
        f = lambda n=n, d=d: concentration.CMRelation.get_models()[n](cosmo=hmf.Cosmology(), mdef=defs[d])  # noqa: E731
        judge(res, f"mdef:{n}:{d}", warned(f), "mass definition", d not in NATIVE[n])
    for n in NATIVE:
        f = lambda n=n: concentration.CMRelation.get_models()[n](cosmo=hmf.Cosmology())  # noqa: E731
        judge(res, f"mdef:{n}:none", warned(f), "mass definition", False)
    for v in (9.0, 9.99, 10.0, 10.01, 12.0):
        for q in ("mean_tracer_den", "power_1h_auto_tracer", "bias_effective_tracer"):
            def use(v=v, q=q):
                h = TracerHaloModel(**grid(hod_params={"M_min": v}, hod_model="Zehavi05"))
                getattr(h, q)
            judge(res, f"mmin:{v}:{q}", warned(use), "lower masses", v < 10)
    for z, (lo, hi) in itertools.product((0.1, 0.3, 0.4, 0.5, 0.7), ((0.3, 0.5), (0.2, 0.4), (0.4, 0.6))):
        b = {**base("ang"), "z": z, "zmin": lo, "zmax": hi}
        judge(res, f"ang:{z}:{lo}:{hi}", warned(lambda b=b: integrate_corr.AngularCF(**b)), "redshift", not lo <= z <= hi)
    # normalisation of selection functions
    xi = lambda r: 1 / (1 + r)  # noqa: E731
    th = np.array([0.01])
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS
    zz = np.linspace(0.3, 0.5, 40)
    for a, p2a, spl, of_z, chk in itertools.product((0.5, 0.985, 0.993, 1.0, 1.007, 1.015, 3.0), (None, 1.0, 0.993, 1.2), (True, False), (True, False), (True, False)):
        if of_z:
            x = zz
        else:
            cs = hmf.Cosmology().cosmo
            x = np.linspace(*[cs.comoving_distance(z).value * cs.h for z in (0.3, 0.5)], 40)
        w = x[-1] - x[0]
        mk = lambda a, x=x, w=w, spl=spl: IUS(x, np.full(len(x), a / w)) if spl else (lambda z: np.full(np.shape(z), a / w))  # noqa: E731
        kw = dict(p2=None if p2a is None else mk(p2a), p_of_z=of_z, check_p_norm=chk, znum=11, unum=11)
        f = lambda a=a, kw=kw, mk=mk: integrate_corr.angular_corr_gal(th, xi, mk(a), 0.3, 0.5, -3, 1, **kw)  # noqa: E731
        off = abs(a - 1) > 0.01 or (p2a is not None and abs(p2a - 1) > 0.01)
        judge(res, f"pnorm:{a}:{p2a}:{spl}:{of_z}:{chk}", warned(f), "did not integrate", off and chk)
    # analytic approximations outside their domain
    for a, ui in itertools.product((0.1, 0.17, 0.18, 0.19, 0.3), (True, False)):
        f = lambda a=a, ui=ui: profiles.Einasto(conc(), mdef=md.SOMean(), alpha=a, use_interp=ui)  # noqa: E731
        judge(res, f"einasto:{a}:{ui}", warned(f), "interpolation", ui and a != 0.18)
    x = np.array([1.0, 2.0, 3.0, 4.0, 5.0, 6.0])
    for lo, hi, log in itertools.product((None, 0.9, 1.0, 2.5), (None, 4.5, 6.0, 6.1), (True, False)):
        f = lambda lo=lo, hi=hi, log=log: tools.spline_integral(x, x**2, xmin=lo, xmax=hi, log=log)  # noqa: E731
        out = (lo is not None and lo < 1) or (hi is not None and hi > 6)
        judge(res, f"integral:{lo}:{hi}:{log}", warned(f), "extrapol", out)
    for sg in itertools.product((-1, 0, 1), repeat=4):
        y = np.array(sg, float)
        for side in ("lower", "upper"):
            msgs = []
            box = {}

            def f(y=y, side=side, box=box):
                box["s"] = tools.ExtendedSpline(np.array([1.0, 2, 3, 4]), y, k=1, **{side + "_func": "power_law"})
            msgs = warned(f)
            mixed = not (np.all(y > 0) or np.all(y < 0))
            judge(res, f"sign:{sg}:{side}", msgs, "power-?law", mixed)
            if mixed and float(box["s"](0.5 if side == "lower" else 8.0)) != 0:
                res.fail(f"sign:{sg}:{side}", "the extrapolation of changing signs is not zero")
    for n in ("Ludlow2016", "Ludlow2016Empirical", "Ludlow16", "Ludlow16Empirical"):
        f = lambda n=n: concentration.CMRelation.get_models()[n](cosmo=hmf.Cosmology())  # noqa: E731
        judge(res, f"deprecated:{n}", warned(f), "deprecated", "2016" in n)
    for ex, kmin in itertools.product(("NoExclusion", "Sphere"), (-3.0, -2.01, -1.9, -1.0)):
        f = lambda ex=ex, kmin=kmin: TracerHaloModel(**grid(exclusion_model=ex, hm_logk_min=kmin, hm_logk_max=1.0)).power_2h_auto_tracer  # noqa: E731
        judge(res, f"small-k:{ex}:{kmin}", warned(f), "k < 1e-2", ex == "Sphere" and kmin < -2)


def bounds(tier):
    return {"settings": {c: len(settings(c)) for c in CLS}, "routes": ["new", "update", "set", "clone"], "calls": len(calls()),
            "norm": [len(PAIRS), len(NORMALISED | UNNORMALISED)]}


def units(tier):
    return [("setting", c, r) for c in CLS for r in ("new", "update", "set", "clone")] + [("calls",), ("warn",)] + [("norm", b) for b in PAIRS]


def run_unit(u, tier):
    res = Result()
    {"setting": run_setting, "calls": run_calls, "warn": run_warn, "norm": run_warn_norm}[u[0]](u, tier, res)
    res.sample(str(u))
    return res
