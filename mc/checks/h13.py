"""H13: concentration relations follow their published forms."""

from __future__ import annotations

import copy
import itertools
import warnings

import numpy as np

from ..core import Result, isolated
from ..impl import concentration as conc
from ..impl import profiles
from ..ref import conc as ref

id = "H13"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (relation x parameters x cosmology x mass definition x redshift x "
    "mass) and of all redshift-query histories up to a depth; each state replayed on the real relation and "
    "compared with a scalar reference model"
)
level_note = "Complete over the stated lattice; real-valued inputs between lattice values are not enumerated."
rule = (
    "state = (relation, parameters, cosmology, mass definition, z, mass) ; transition = one cm() query of a "
    "history ; trace = one relation instance whose answers were compared with the reference"
)
assumptions = [
    "published forms as written in mc/ref/conc.py; hmf's filter and growth factor and colossus are taken as given",
    "masses are ascending float arrays (the argument the framework passes)",
]

M = np.array([1e9, 3e10, 4e11, 2e12, 1e13, 7e13, 4e14, 3e15])
ZS = (0.0, 0.5, 1.0, 2.5, 5.0)
ALT = {
    "F": (0.002, 0.05), "K": (2.5, 4.2), "norm": (1.3, 0.6), "a": (5.0, 14.0), "b": (-0.2, 0.0),
    "c": (0.0, 1.5), "ms": (5e11, 1e13), "c_0": (10.0, 40.0), "gamma": (0.5, 2.0),
    "sample": ("full",), "f": (0.01, 0.1), "C": (400, 1000), "c0_0": (2.5, 4.5), "c0_z": (-0.5, 0.1),
    "beta_0": (0.2, 0.5), "beta_z": (0.2, 0.8), "gamma1_0": (0.4, 0.8), "gamma1_z": (-0.3, 0.1),
    "gamma2_0": (0.2, 0.5), "gamma2_z": (-0.5, 0.2),
}


def cosmos():
    from astropy.cosmology import FlatLambdaCDM, Planck15, WMAP5

    return [Planck15, WMAP5, FlatLambdaCDM(H0=60.0, Om0=0.42, Ob0=0.05, Tcmb0=2.7)]


def mdefs():
    from hmf.halos import mass_definitions as md

    return {"200c": md.SOCritical(), "200m": md.SOMean(), "vir": md.SOVirial(),
            "500c": md.SOCritical(overdensity=500)}


_ENV = {}


def environment(ci, delta_c, mdn):
    """Linear theory for one cosmology, shared by the relation and the reference."""
    from hmf import MassFunction
    from hmf.cosmology.growth_factor import GrowthFactor
    from hmf.density_field.filters import TopHat

    if ci not in _ENV:
        c = cosmos()[ci]
        h = MassFunction(cosmo_model=c, transfer_model="EH", lnk_min=-9, lnk_max=9, dlnk=0.08, z=0)
        filt = TopHat(h.k.copy(), h.power.copy())
        _ENV[ci] = (c, filt, GrowthFactor(cosmo=c), h.mean_density0)
    c, filt, g, rho0 = _ENV[ci]
    cache = {}

    def sigma(m):
        if m not in cache:
            r = (3 * m / (4 * np.pi * rho0)) ** (1 / 3)
            cache[m] = float(np.ravel(filt.sigma(np.array([r])))[0])
        return cache[m]

    dcache = {}

    def D(z):
        if z not in dcache:
            dcache[z] = float(np.ravel(g.growth_factor(z))[0])
        return dcache[z]

    e = ref.Env(sigma, D, delta_c, mdn, c, lambda x: np.log(1 + x) - x / (1 + x))
    mdef = mdefs()[mdn]
    e.overdensity_crit = lambda z: float(mdef.halo_overdensity_crit(z, c))
    return e, filt, g, c, mdef


def build(name, ci, delta_c, mdn, params, env):
    from hmf.cosmology.cosmo import Cosmology

    e, filt, g, c, mdef = env
    return conc.CMRelation._plugins[name](
        cosmo=Cosmology(cosmo_model=c), filter0=copy.copy(filt), growth=g, delta_c=delta_c, mdef=mdef,
        **copy.deepcopy(params))


def param_sets(name, tier):
    d = conc.CMRelation._plugins[name]._defaults
    alt = {k: ALT[k] for k in d if k in ALT}
    yield {}
    nmax = 1 if tier == "quick" and name.startswith("Ludlow") else 2
    for n in range(1, nmax + 1):
        for names in itertools.combinations(alt, n):
            for v in itertools.product(*[alt[x] for x in names]):
                yield dict(zip(names, v))


def bounds(tier):
    return (
        f"{len(conc.CMRelation._plugins)} relations x all parameters one or two at a time (2 alternative values) "
        f"x 3 cosmologies x 4 mass definitions x 2 collapse thresholds x z in {ZS} x {len(M)} masses; all "
        f"redshift-query histories of length <= {3 if tier == 'quick' else 4} over 3 redshifts; colossus "
        "relations and interpolated relations x mass definition x z"
    )


def names():
    return sorted(n for n in conc.CMRelation._plugins if ref.ALIAS.get(n, n) in ref.FORMS)


def units(tier):
    u = []
    for n in names():
        for ci in range(3):
            u.append(("form", n, ci))
        u.append(("history", n))
    u += [("colossus", i) for i in range(4)] + [("interp",), ("native",)]
    return u


def check(res, name, ci, delta_c, mdn, params, zs, inst=None):
    env = environment(ci, delta_c, mdn)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = inst or build(name, ci, delta_c, mdn, params, env)
    rn = ref.ALIAS.get(name, name)
    tol = 3e-3 if rn in ("Bullock01", "Ludlow16") else 1e-3 if rn == "Bullock01Power" else 1e-9
    res.traces += 1
    for z in zs:
        m = M.copy()
        c = np.asarray(o.cm(m, z), dtype=float)
        res.states += len(M)
        res.transitions += 1
        if c.shape != M.shape or not np.all(np.isfinite(c)) or np.any(c <= 0):
            res.fail(f"invalid:{name}", f"cm = {c} for z={z} {mdn} {params} cosmology {ci}")
            return
        try:
            w = ref.expected(name, M, z, params, env[0])
        except ValueError:
            if rn == "Bullock01Power":  # no non-linear mass in reach
                continue
            raise
        if rn == "Ludlow16":
            # masses for which even c=1 or c=100 is out of reach are clipped to the grid's ends
            pass
        if not np.allclose(c, w, rtol=tol) or not np.array_equal(m, M):
            i = int(np.argmax(np.abs(c / w - 1)))
            res.fail(f"form:{name}", f"cm({M[i]:.3g}, z={z}) = {c[i]!r}, expected {w[i]!r} for {params}, mdef {mdn}, "
                     f"cosmology {ci}, delta_c={delta_c}", params=params)
            return


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    if unit[0] == "form":
        _, name, ci = unit
        cls = conc.CMRelation._plugins[name]
        want = ref.DEFAULTS[ref.ALIAS.get(name, name)]
        if cls._defaults != want:
            res.fail(f"defaults:{name}", f"{cls._defaults} are not the published {want}")
        for j, params in enumerate(param_sets(name, tier)):
            if params and ci == 1 and tier == "quick":
                continue
            for mdn in mdefs():
                if params and mdn in ("vir", "500c") and not name.startswith("Duffy"):
                    continue
                for dc in (1.686, 1.55):
                    if dc != 1.686 and j > 2 and tier == "quick":
                        continue
                    zs = ZS if not params or tier == "thorough" else (0.0, 1.0)
                    check(res, name, ci, dc, mdn, params, zs)
        res.sample({"relation": name, "cosmology": ci})
    elif unit[0] == "history":
        name = unit[1]
        mdn = "200m" if name == "Maccio07" else "200c"
        env = environment(0, 1.686, mdn)
        zs = (0.0, 0.8, 2.0)
        fresh = {z: np.array(build(name, 0, 1.686, mdn, {}, env).cm(M.copy(), z)) for z in zs}
        for n in range(1, 4 if tier == "quick" else 5):
            for seq in itertools.product(zs, repeat=n):
                o = build(name, 0, 1.686, mdn, {}, env)
                for i, z in enumerate(seq):
                    c = np.array(o.cm(M.copy(), z))
                    res.states += 1
                    res.transitions += 1
                    if not np.allclose(c, fresh[z], rtol=1e-10):
                        res.fail(f"history:{name}", f"cm at z={z} differs after queries {seq[:i]}")
                res.traces += 1
        # the reference's elementwise independence: any contiguous part of the masses gives the same answers
        for a in range(len(M)):
            for b in range(a + 1, len(M) + 1):
                c = np.array(build(name, 0, 1.686, mdn, {}, env).cm(M[a:b].copy(), 0.8))
                res.states += 1
                if not np.allclose(c, fresh[0.8][a:b], rtol=1e-10):
                    res.fail(f"elementwise:{name}", f"cm of masses {a}:{b} depends on the others")
    elif unit[0] == "native":
        for name in names():
            nat = ref.NATIVE[ref.ALIAS.get(name, name)]
            cls = conc.CMRelation._plugins[name]
            got = {d.colossus_name for d in cls.native_mdefs}
            if got != nat:
                res.fail(f"native:{name}", f"native mass definitions {got}, calibrated for {nat}")
            for mdn in mdefs():
                env = environment(0, 1.686, mdn)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    build(name, 0, 1.686, mdn, {}, env)
                warned = any("mass definition" in str(x.message) for x in w)
                res.states += 1
                res.traces += 1
                if warned == (mdn in nat):
                    res.fail(f"warn:{name}", f"warning about {mdn}: {warned}")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = cls()
            if o.mdef.colossus_name not in nat:
                res.fail(f"default-mdef:{name}", f"default definition {o.mdef}")
    elif unit[0] == "interp":
        class Holes(conc.Duffy08, abstract=True):
            _defaults = conc.Duffy08._defaults
            bad = ()

            def cm(self, m, z=0):
                c = super().cm(m, z)
                c[list(self.bad)] = -1.0 if len(self.bad) % 2 else 0.0
                return c

        K = conc.interp_concentration(Holes)
        for z in (0.0, 1.0):
            full = conc.Duffy08().cm(M, z)
            for bits in itertools.product((0, 1), repeat=len(M)):
                bad = tuple(i for i, b in enumerate(bits) if b)
                o = K()
                o.bad = bad
                c = np.asarray(o.cm(M.copy(), z))
                res.states += 1
                res.transitions += 1
                res.traces += 1
                good = [i for i in range(len(M)) if i not in bad]
                for i in range(len(M)):
                    if i in good and len(good) > 1 or len(good) == 1 and i in good:
                        w = full[i]
                    elif not good or i < good[0] or i > good[-1]:
                        w = 1.0
                    else:
                        w = float(np.interp(M[i], M[good], full[good]))
                    if not abs(c[i] - w) <= 1e-9 * w:
                        res.fail("interp", f"valid {good}: cm[{i}] = {c[i]}, expected {w}")
    elif unit[0] == "colossus":
        for out in colossus_cases(unit[1], res):
            res.fail(*out)
    return res


COL = [("diemer15", {}), ("diemer19", {}), ("duffy08", {}), ("prada12", {}), ("bhattacharya13", {}),
       ("klypin16_m", {}), ("child18", {}), ("ishiyama21", {}), ("bullock01", {}), ("ludlow16", {})]


def colossus_cases(part, res):
    def go():
        warnings.simplefilter("ignore")
        from colossus.cosmology import cosmology as cc
        from colossus.halo import concentration as C
        from hmf.cosmology.cosmo import Cosmology

        out, n = [], 0
        for mod, kw in COL[part::4]:
            cls = conc.make_colossus_cm(mod, **kw)
            if {d.colossus_name for d in cls.native_mdefs} != set(C.models[mod].mdefs) - {"*"} \
                    and "*" not in C.models[mod].mdefs:
                out.append((f"colossus-native:{mod}", f"{cls.native_mdefs} vs {C.models[mod].mdefs}"))
            for ci, c in enumerate(cosmos()):
                for s8, ns in ((0.8, 0.96), (0.95, 0.9)):
                    for mdn in ("200c", "200m", "vir", "500c"):
                        for z in (0.0, 1.0):
                            for norm in (1.0, 1.7):
                                n += 1
                                try:
                                    cc.setCurrent(cc.fromAstropy(c, sigma8=s8, ns=ns, cosmo_name="ref"))
                                    w = norm * C.concentration(M=M, mdef=mdn, z=z, model=mod, range_return=False,
                                                               range_warning=False, **kw)
                                except Exception as e:
                                    w = type(e).__name__
                                cc.setCosmology("WMAP9")
                                try:
                                    o = cls(norm, cosmo=Cosmology(cosmo_model=c), mdef=mdefs()[mdn], sigma_8=s8, ns=ns)
                                    v = o.cm(M.copy(), z)
                                except Exception as e:
                                    v = type(e).__name__
                                if isinstance(v, str) or isinstance(w, str):
                                    if not (isinstance(v, str) and isinstance(w, str)):
                                        out.append((f"colossus:{mod}", f"{mdn} z={z}: {v} vs {w}"))
                                elif not np.allclose(v, w, rtol=1e-7):
                                    out.append((f"colossus:{mod}", f"{mdn} z={z} cosmo {ci}: {v} vs {w}"))
        return n, out

    st, r = isolated(go)
    if st != "ok":
        return [("colossus", r)]
    res.states += r[0]
    res.transitions += r[0]
    res.traces += r[0]
    return r[1]
