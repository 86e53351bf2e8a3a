"""H14: halo bias models follow their published forms."""

from __future__ import annotations

import itertools
import warnings

import numpy as np

from ..core import Result, isolated
from ..impl import TracerHaloModel, bias, grid
from ..ref import bias as ref

id = "H14"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (bias model x parameters x cosmology x redshift x overdensity x "
    "collapse threshold x peak heights); each state replayed on the real model, on its own and inside a "
    "halo model, against a scalar reference model"
)
level_note = (
    "Complete over the stated lattice; real-valued inputs between lattice values are not enumerated. "
    "Inside a halo model, two redshift-dependent models are evaluated at z=0 (recorded finding)."
)
rule = (
    "state = (model, parameters, delta_c, mstar, delta_halo, n, sigma_8, cosmology, z, nu) ; transition = "
    "one bias evaluation ; trace = one instance (stand-alone or in a halo model) compared with the reference"
)
assumptions = [
    "published forms as written in mc/ref/bias.py; colossus and hmf are taken as given",
    "mstar, nu, n_eff and the overdensity of a halo model are hmf's",
]

NU = np.array([0.05, 0.2, 0.5, 0.9, 1.0, 1.4, 2.2, 3.7, 6.0, 11.0, 24.0])
M = 10 ** np.linspace(9.3, 15.7, len(NU))
NEFF = np.linspace(-2.6, -0.4, len(NU))

STATE_AXES = {
    "delta_c": (1.686, 1.5), "mstar": (4e12, 3e13), "delta_halo": (200, 1600, 178.0, 250.0, 777.7, 3200),
    "n": (1.0, 0.93), "sigma_8": (0.8, 0.95), "z": (0.0, 0.7, 3.0, 5.0), "cosmo": (0, 1),
}


def cosmologies():
    from astropy.cosmology import FlatLambdaCDM, Planck15

    return [Planck15, FlatLambdaCDM(H0=58.0, Om0=0.38, Ob0=0.05, Tcmb0=2.7)]


def alternatives(name):
    d = bias.Bias._plugins[name]._defaults
    out = {}
    for k, v in d.items():
        if name == "Tinker10PBSplit":
            if k.startswith("alpha"):
                continue
            if k == "max_z":
                out[k] = (1.0,)
            else:
                out[k] = (v * 1.1,)
        else:
            out[k] = (v * 1.13, v * 0.8)
    return out


def param_sets(name, tier):
    alt = alternatives(name)
    yield {}
    for k in range(1, 2 if (tier == "quick" and len(alt) > 8) or name == "Tinker10PBSplit" else 3):
        for names in itertools.combinations(alt, k):
            for v in itertools.product(*[alt[n] for n in names]):
                yield dict(zip(names, v))


def states(tier):
    base = {k: v[0] for k, v in STATE_AXES.items()}
    if tier == "thorough":
        for vals in itertools.product(*STATE_AXES.values()):
            yield dict(zip(STATE_AXES, vals))
        return
    yield base
    for a, b in itertools.combinations(STATE_AXES, 2):
        for va in STATE_AXES[a]:
            for vb in STATE_AXES[b]:
                if va != base[a] or vb != base[b]:
                    yield dict(base, **{a: va, b: vb})


def bounds(tier):
    return (
        f"{len(ref.FORMS)} models x all parameters one"
        f"{' or two' if tier == 'thorough' else ' (two for small models)'} at a time x "
        f"{'all' if tier == 'thorough' else 'all pairs of'} values of delta_c, mstar, delta_halo, n, sigma_8, "
        f"z, cosmology x {len(NU)} peak heights; inside halo models: 13 models x z x 3 cosmologies x 4 mass "
        "definitions; colossus biases x mdef x z; peak-background-split sum rule for all declared pairs"
    )


def units(tier):
    u = [("form", n, i) for n in sorted(bias.Bias._plugins) if n in ref.FORMS for i in range(2)]
    u += [("framework", i) for i in range(12)]
    u += [("colossus",), ("pairs",), ("sd",)]
    return u


def run_form(name, part, tier, res):
    cls = bias.Bias._plugins[name]
    cos = cosmologies()
    d = {k: v for k, v in ref.DEFAULTS[name].items()}
    if name == "Tinker10PBSplit":
        for t, tab in ref.T10_TABLE.items():
            for dd, v in zip(ref.T10_DELTA, tab):
                d[f"{t}_{dd}"] = v
            d[f"{t}_exp"] = ref.T10_EXP[t]
    real = {k: v for k, v in cls._defaults.items() if not k.startswith("alpha_")}
    if real != d:
        res.fail(f"defaults:{name}", f"defaults {real} are not the published {d}")
    psets = list(param_sets(name, tier))
    j = 0
    for params in psets:
        sts = states(tier) if not params else [
            {k: v[0] for k, v in STATE_AXES.items()}, {k: v[1] for k, v in STATE_AXES.items()},
            {k: v[-1] for k, v in STATE_AXES.items()}]
        for s in sts:
            j += 1
            if j % 2 != part:
                continue
            c = cos[s["cosmo"]]
            st = dict(s, h=c.h, Om0=c.Om0)
            kw = {k: v for k, v in s.items() if k != "cosmo"}
            nu, m, ne = NU.copy(), M.copy(), NEFF.copy()
            b = np.asarray(cls(nu=nu, m=m, n_eff=ne, cosmo=c, **kw, **params).bias(), dtype=float)
            w = ref.expected(name, NU, M, NEFF, st, params)
            res.states += len(NU)
            res.transitions += 1
            res.traces += 1
            if b.shape != NU.shape or not np.allclose(b, w, rtol=1e-8, atol=1e-12):
                i = int(np.argmax(np.abs(b - w))) if b.shape == w.shape else 0
                res.fail(f"form:{name}", f"bias(nu={NU[i]}) = {np.ravel(b)[i]!r}, expected {w[i]!r}; {s} {params}",
                         state=s, params=params)
            if not (np.array_equal(nu, NU) and np.array_equal(m, M) and np.array_equal(ne, NEFF)):
                res.fail(f"inputs:{name}", "the input arrays were modified")
            hi = b[-4:]
            if not params and (np.any(hi <= 0) or np.any(np.diff(hi) < 0)):
                res.fail(f"highmass:{name}", f"bias not positive and increasing at high peaks: {hi} {s}")
    res.sample({"model": name})


MDEFS = ["SOMean", "SOCritical", "SOVirial", "FOF"]
Z_DEPENDENT = {"Tinker10PBSplit"}


def run_framework(part, tier, res):
    cfgs = []
    for z in (0.0, 0.7, 2.0):
        for cosmo in ({}, {"cosmo_model": "WMAP5"}, {"cosmo_params": {"Om0": 0.36, "H0": 61.0}}):
            for md in MDEFS:
                cfgs.append((z, cosmo, md))
    h = None
    for i, (z, cosmo, md) in enumerate(cfgs):
        if i % 12 != part:
            continue
        for extra in ({}, {"sigma_8": 0.72, "n": 0.92, "delta_c": 1.6}):
            h = TracerHaloModel(**grid(z=z, mdef_model=md, disable_mass_conversion=False,
                                       hmf_model="Jenkins" if md == "FOF" else "Tinker08",
                                       **cosmo, **extra))
            st = dict(delta_c=h.delta_c, mstar=h.mass_nonlinear, delta_halo=h.halo_overdensity_mean, n=h.n,
                      sigma_8=h.sigma_8, h=h.cosmo.h, Om0=h.cosmo.Om0, z=z)
            for name in sorted(ref.FORMS):
                first = {k: v[0] for k, v in itertools.islice(alternatives(name).items(), 3)}
                for params in ({}, first):
                    h.update(bias_model=name)
                    h.bias_params = {}
                    h.update(bias_params=params)
                    b = h.halo_bias
                    res.states += len(b)
                    res.transitions += 1
                    res.traces += 1
                    if name == "Tinker10PBSplit" and not 200 <= st["delta_halo"] <= 3200:
                        continue  # outside the calibrated table
                    w = ref.expected(name, h.nu, h.m, h.n_eff, st, params)
                    if np.allclose(b, w, rtol=1e-7, atol=1e-12):
                        continue
                    if name in Z_DEPENDENT and z:
                        w0 = ref.expected(name, h.nu, h.m, h.n_eff, dict(st, z=0.0), params)
                        if np.allclose(b, w0, rtol=1e-7, atol=1e-12):
                            res.fail(f"z-dependence:{name}", f"halo_bias at z={z} is the z=0 relation")
                            continue
                    res.fail(f"framework:{name}", f"halo_bias in a model with z={z} {cosmo} {md} {extra} {params} "
                             f"differs: {b[:3]} {w[:3]}")


def run_colossus(res):
    def go():
        warnings.simplefilter("ignore")
        from colossus.cosmology import cosmology as cc
        from colossus.lss.bias import haloBiasFromNu

        from halomod.bias import make_colossus_bias
        from hmf.halos import mass_definitions as md

        out = []
        n = 0
        models = [("comparat17", {}), ("tinker10", {}), ("sheth01", {}), ("cole89", {}), ("jing98", {}),
                  ("seljak04", {}), ("pillepich10", {}), ("bhattacharya11", {})]
        for ci, c in enumerate(cosmologies()):
            for s8, ns in ((0.8, 0.96), (0.95, 1.0)):
                for z in (0.0, 0.8):
                    for mdn, mdef in (("200m", md.SOMean()), ("200c", md.SOCritical()), ("vir", md.SOVirial()),
                                      ("500m", md.SOMean(overdensity=500))):
                        for mod, kw in models:
                            n += 1
                            try:
                                cos = cc.fromAstropy(c, sigma8=s8, ns=ns, cosmo_name="ref")
                                cc.setCurrent(cos)
                                w = haloBiasFromNu(nu=np.sqrt(NU[2:]), z=z, mdef=mdn, model=mod, **kw)
                            except Exception as e:
                                w = type(e).__name__
                            cc.setCosmology("WMAP9")
                            try:
                                cls = make_colossus_bias(mod, mdef=mdef, **kw)
                                b = cls(nu=NU[2:].copy(), z=z, cosmo=c, sigma_8=s8, n=ns).bias()
                            except Exception as e:
                                b = type(e).__name__
                            if isinstance(w, str) or isinstance(b, str):
                                if not (isinstance(w, str) and isinstance(b, str)):
                                    out.append((mod, f"{mod} {mdn} z={z}: {b} vs {w}"))
                            elif not np.allclose(b, w, rtol=1e-7):
                                out.append((mod, f"{mod} {mdn} z={z} cosmo {ci}: {b[:3]} vs {w[:3]}"))
        return n, out

    st, r = isolated(go)
    if st != "ok":
        res.fail("colossus", r)
        return
    res.states += r[0]
    res.transitions += r[0]
    res.traces += r[0]
    for mod, t in r[1]:
        res.fail(f"colossus:{mod}", t)


def run_pairs(res):
    """Haloes are unbiased overall: the bias averages to one over its own mass function."""
    expect = {"Mo96": {"PS"}, "ST99": {"SMT"}, "SMT01": {"SMT"}, "Manera10": {"Manera"},
              "Tinker10PBSplit": {"Tinker10"}}
    from hmf.halos.mass_definitions import SOMean

    for n, c in bias.Bias._plugins.items():
        if n not in ref.FORMS:
            continue
        res.states += 1
        got = {h.__name__ for h in c.pair_hmf}
        if n == "UnityBias":
            if not got or any(not h.normalized for h in c.pair_hmf):
                res.fail("pair:UnityBias", f"{got}")
            continue
        if not expect.get(n, set()) <= got:
            res.fail(f"pair:{n}", f"pairs with {got}, derived with {expect.get(n)}")
        for h in c.pair_hmf:
            nu = np.exp(np.linspace(np.log(1e-9), np.log(300), 20001))
            m = np.logspace(5, 16, len(nu))
            dc = 1.686
            fs = h(nu2=nu, m=m, z=0.0, delta_c=dc, mass_definition=SOMean(overdensity=200)).fsigma
            b = c(nu=nu, m=m, delta_c=dc, delta_halo=200, mstar=1e13, n_eff=-1.5 + 0 * nu).bias()
            w = 0.5 * np.log(nu[1] / nu[0])
            norm = np.trapezoid(fs, dx=1) * w
            mean = np.trapezoid(fs * b, dx=1) * w
            res.transitions += len(nu)
            res.traces += 1
            if n in ("SMT01", "Tinker05", "Mandelbaum05"):
                continue  # ellipsoidal-collapse and refitted forms do not obey the sum rule exactly
            tol = 0.05 if n == "Manera10" else 0.03
            if not abs(mean / norm - 1) < tol:
                res.fail(f"sumrule:{n}:{h.__name__}", f"mean bias {mean / norm:.4f} over {h.__name__}, norm {norm:.4f}")


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    k = unit[0]
    if k == "form":
        run_form(unit[1], unit[2], tier, res)
    elif k == "framework":
        run_framework(unit[1], tier, res)
    elif k == "colossus":
        run_colossus(res)
    elif k == "pairs":
        run_pairs(res)
    elif k == "sd":
        xi = np.array([-0.4, -1e-3, 0.0, 1e-4, 0.02, 0.3, 1.0, 7.0, 90.0, 5e3])
        alt = {k2: (v, v * 1.2, v * 0.7, 0.0) for k2, v in bias.TinkerSD05._defaults.items()}
        if bias.TinkerSD05._defaults != dict(a=1.17, b=1.49, c=0.69, d=2.09):
            res.fail("defaults:TinkerSD05", str(bias.TinkerSD05._defaults))
        for vals in itertools.product(*alt.values()):
            p = dict(zip(alt, vals))
            x = xi.copy()
            b = bias.TinkerSD05(xi_dm=x, **p).bias_scale()
            w = np.array([((1 + p["a"] * v) ** p["b"] / (1 + p["c"] * v) ** p["d"]) ** 0.5 for v in xi])
            res.states += len(xi)
            res.transitions += 1
            res.traces += 1
            if not np.allclose(b, w, rtol=1e-9):
                res.fail("sd:TinkerSD05", f"{p}: {b} {w}")
    return res
