"""H12: every halo profile is consistent between mass, density, cumulative, Fourier and self-convolved forms."""

from __future__ import annotations

import functools
import itertools
import warnings

import numpy as np
from astropy.cosmology import WMAP5, Planck15
from hmf.halos.mass_definitions import FOF, SOCritical, SOMean, SOVirial

from ..core import Result
from ..impl import profiles
from ..ref.prof import Shape

id = "H12"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (profile x environment x function x argument shapes x coordinates x "
    "normalisation x concentration given or not); every value of the real profile in every state is compared with "
    "direct quadrature of the published shape"
)
level_note = (
    "Complete over the lattice of argument shapes and options; masses, radii and wavenumbers are representative values. "
    "Profiles transformed numerically inside the package are compared to 2e-3 of the central value."
)
rule = "state = (profile, environment, function, options, shapes) ; transition = one value compared ; trace = one call"
assumptions = ["hmf mass definitions supply the overdensity and the mean density"]

#: name, parameters, rotation of Fourier tests (numeric: transform done by quadrature inside the package)
PROFS = [
    ("NFW", {}, False), ("NFWInf", {}, False), ("Hernquist", {}, False), ("HernquistInf", {}, False),
    ("Constant", {}, False), ("CoredNFW", {}, False), ("PowerLawWithExpCut", {}, False),
    ("PowerLawWithExpCut", {"b": 2.0, "a": 0.3}, False), ("PowerLawWithExpCut", {"b": 1.3, "a": 0.1}, False),
    ("Moore", {}, True), ("MooreInf", {}, True), ("GeneralizedNFW", {}, True), ("GeneralizedNFW", {"alpha": 1.3}, True),
    ("GeneralizedNFW", {"alpha": 0.4}, True), ("GeneralizedNFWInf", {"alpha": 1.3}, True), ("GeneralizedNFWInf", {}, True),
    ("Einasto", {"use_interp": False}, True), ("Einasto", {"alpha": 0.3, "use_interp": False}, True), ("Einasto", {}, True),
]
ENVS = [
    dict(),
    dict(z=1.5, mdef=("SOMean", {"overdensity": 180}), cosmo="WMAP5"),
    dict(z=0.7, mdef=("SOVirial", {})),
    dict(z=0.3, mdef=("SOCritical", {"overdensity": 500}), cosmo="WMAP5", eta=0.3),
    dict(mdef=("FOF", {"linking_length": 0.2}), cscale=3.0),
]
MDEF = {"SOMean": SOMean, "SOVirial": SOVirial, "SOCritical": SOCritical, "FOF": FOF}
MASS = {"f": 3e12, "i": 10**13, "0": np.array(2e11), "1": np.array([5e14]), "2": np.array([2e14, 6e10]),
        "3": np.array([1e11, 3e15, 4e13])}
S = {"f": 0.13, "1": np.array([0.9]), "2": np.array([0.02, 0.5]), "3": np.array([0.9, 0.003, 0.35]),
     "4": np.array([0.999, 1.001, 1.3, 1.9])}
KAP = {"f": 0.7, "1": np.array([5.0]), "2": np.array([1e-3, 2.1]), "3": np.array([0.3, 40.0, 0.011]), "9": np.geomspace(1e-4, 90, 9)}


def nu(m):
    return 1 + 0.3 * np.log10(np.asarray(m, float) / 1e13) ** 2


def build(name, params, env):
    cosmo = {"WMAP5": WMAP5, None: Planck15}[env.get("cosmo")]
    z = env.get("z", 0.0)
    md = MDEF[env["mdef"][0]](**env["mdef"][1]) if "mdef" in env else SOMean()
    conc = Relation(env.get("cscale", 1.0))
    p = dict(params)
    if "eta" in env:
        p["eta_bloat"] = env["eta"]
    cls = getattr(profiles, name)
    return cls(conc, mdef=md, z=z, cosmo=cosmo, nu_fn=nu, **p), md, z, cosmo


class Relation:
    """A concentration relation known in closed form."""

    def __init__(self, scale):
        self.scale = scale

    def cm(self, m, z=0.0):
        return self.scale * 9.0 * (np.asarray(m, float) / 2e12) ** -0.09 / (1 + z) ** 0.5


@functools.lru_cache(None)
def ref_of(name, pkey):
    return Shape(name, dict(pkey))


class Env:
    """The reference in one environment."""

    def __init__(self, name, params, env):
        self.env = env
        self.S = ref_of(name, tuple((k, v) for k, v in sorted(params.items()) if k != "use_interp"))
        self.prof, md, z, cosmo = build(name, params, env)
        self.name, self.z = name, z
        self.rho0 = md.mean_density(0, cosmo=cosmo)
        self.delta = md.halo_overdensity_mean(z, cosmo)

    def c(self, m):
        c = float(Relation(self.env.get("cscale", 1.0)).cm(m, self.z))
        return float((c / 1.7) ** 0.9) if self.name.startswith("Moore") else c

    def rv(self, m):
        r = (3 * m / (4 * np.pi * self.delta * self.rho0)) ** (1 / 3)
        return r * np.sqrt(float(nu(m))) ** self.env.get("eta", 0.0)

    def rho(self, x, m, c, norm):
        rs = self.rv(m) / c
        if not self.S.inf and x > c:
            return 0.0
        a = float(self.S.f(x)) / (4 * np.pi * rs**3 * self.S.h(c))
        return a * {"m": 1.0, None: m, "rho": m / self.rho0}[norm]

    def u(self, K, m, c, norm):
        return self.S.p(K, c) / self.S.h(c) * (m if norm is None else 1.0)

    def lam(self, x, m, c, norm):
        if not self.S.inf and x >= 2 * c:
            return 0.0
        rs = self.rv(m) / c
        a = self.S.conv(x, c) * rs**3 / (4 * np.pi * rs**3 * self.S.h(c)) ** 2
        return a * (m**2 if norm is None else 1.0)

    def cdf(self, x, m, c):
        return self.S.h_in(x) / self.S.h_in(c)


def bounds(tier):
    return (
        f"{len(PROFS)} profiles x {len(ENVS)} environments (redshift, mass definition, cosmology, bloating) x "
        f"5 radius shapes x {len(MASS)} mass shapes x 3 coordinates x 3 normalisations x concentration given or not"
    )


def units(tier):
    u = []
    for p in range(len(PROFS)):
        for e in range(len(ENVS)):
            u += [("real", p, e), ("integral", p, e)]
            if tier == "thorough" or not PROFS[p][2]:
                u += [("fourier", p, e, s) for s in KAP]
            else:
                u += [("fourier", p, e, s) for j, s in enumerate(KAP) if (j + e + p) % len(ENVS) == 0]
    return u + [("custom",)]


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    globals()["_" + unit[0]](res, unit, tier)
    return res


def outer(fn, a, m, cs):
    """fn over every pair, in the documented shape (single values are scalars)."""
    A, M, C = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(m, float)), np.atleast_1d(cs)
    C = np.broadcast_to(C, M.shape)
    return np.array([[fn(x, mm, cc) for mm, cc in zip(M, C)] for x in A]).reshape(A.shape + M.shape)


def check(res, key, what, call, want, rtol, atol=0.0):
    res.states += 1
    res.traces += 1
    try:
        got = call()
    except Exception as e:
        res.fail(key, f"{what}: {type(e).__name__}: {e}")
        return
    res.transitions += want.size
    got = np.asarray(got, float)
    if got.size != want.size or np.squeeze(got).shape != np.squeeze(want).shape:
        res.fail(key, f"{what}: shape {got.shape} expected {np.squeeze(want).shape}")
        return
    g, w = np.squeeze(got).ravel(), want.ravel()
    bad = ~(np.abs(g - w) <= rtol * np.abs(w) + atol)
    if bad.any():
        i = int(np.argmax(bad))
        res.fail(key, f"{what}: {g[i]:.8g} expected {w[i]:.8g} (element {i} of {g.size})")


def concs(E, m):
    """The relation's own concentrations and an explicit one."""
    M = np.atleast_1d(np.asarray(m, float))
    own = np.array([E.c(x) for x in M])
    exp = 3.3 + 2.0 * np.arange(M.size)
    yield None, own
    yield (exp if np.ndim(m) else float(exp[0])), exp


def _real(res, unit, tier):
    _, p, e = unit
    name, params, numeric = PROFS[p]
    E = Env(name, params, ENVS[e])
    P = E.prof
    tol = 1e-3 if name.startswith("GeneralizedNFW") else 1e-7
    for (ms, m), (ss, s) in itertools.product(MASS.items(), S.items()):
        for ci, (carg, c) in enumerate(concs(E, m)):
            rv = np.array([E.rv(x) for x in np.atleast_1d(np.asarray(m, float))])
            for coord in "rxs":
                # the coordinate value must not depend on the halo: take the fractions of the first one
                unit_ = {"r": rv[0], "x": c[0], "s": 1.0}[coord]
                a = s * unit_
                tox = {"r": lambda v, i: v / (rv[i] / c[i]), "x": lambda v, i: v, "s": lambda v, i: v * c[i]}[coord]
                key = f"{p}:{e}:{ms}:{ss}:{ci}:{coord}"
                idx = np.arange(len(c))
                A, = (np.atleast_1d(np.asarray(a, float)),)
                M = np.atleast_1d(np.asarray(m, float))
                for norm in (None, "m", "rho"):
                    want = np.array([[E.rho(tox(v, i), M[i], c[i], norm) for i in idx] for v in A])
                    check(res, f"rho:{key}:{norm}", f"{name}{params} rho(norm={norm}, coord={coord}) shapes {ss},{ms}",
                          lambda: P.rho(a, m, norm=norm, c=carg, coord=coord), want, tol)
                if ss != "4":
                    X = np.array([[tox(v, i) for i in idx] for v in A])
                    if (X <= c * 1.0001).all():
                        want = np.array([[E.cdf(tox(v, i), M[i], c[i]) for i in idx] for v in A])
                        check(res, f"cdf:{key}", f"{name}{params} cdf(coord={coord}) shapes {ss},{ms}",
                              lambda: P.cdf(a, m=m, c=carg, coord=coord), want, tol, 2e-5 if tol > 1e-6 else 1e-12)
                        if carg is not None and coord != "r":
                            check(res, f"cdfc:{key}", f"{name}{params} cdf(c, coord={coord}) without mass {ss},{ms}",
                                  lambda: P.cdf(a, c=carg, coord=coord), want, tol, 2e-5 if tol > 1e-6 else 1e-12)
                if P.has_lam:
                    for norm in (None, "m"):
                        want = np.array([[E.lam(tox(v, i), M[i], c[i], norm) for i in idx] for v in A])
                        check(res, f"lam:{key}:{norm}", f"{name} lam(norm={norm}, coord={coord}) shapes {ss},{ms}",
                              lambda: P.lam(a, m, norm=norm, c=carg, coord=coord), want, 2e-5)
    res.sample({"profile": name, "environment": str(ENVS[e]), "masses": "all shapes"})


def _fourier(res, unit, tier):
    _, p, e, ks = unit
    name, params, numeric = PROFS[p]
    E = Env(name, params, ENVS[e])
    P = E.prof
    kap = KAP[ks]
    for ms, m in MASS.items():
        for ci, (carg, c) in enumerate(concs(E, m)):
            if tier == "quick" and numeric and (ci + len(ms) + ord(ms) + e) % 2:
                continue
            M = np.atleast_1d(np.asarray(m, float))
            rs = np.array([E.rv(x) for x in M]) / c
            for coord in ("k", "kappa"):
                a = kap / rs[0] if coord == "k" else kap
                A = np.atleast_1d(np.asarray(a, float))
                toK = (lambda v, i: float(v * rs[i])) if coord == "k" else (lambda v, i: float(v))
                for norm in (None, "m") if not numeric or ms == "f" else ("m",):
                    want = np.array([[E.u(toK(v, i), M[i], c[i], norm) for i in range(len(c))] for v in A])
                    top = np.array([E.u(1e-5, M[i], c[i], norm) for i in range(len(c))])
                    check(res, f"u:{p}:{e}:{ks}:{ms}:{ci}:{coord}:{norm}",
                          f"{name}{params} u(norm={norm}, coord={coord}) shapes {ks},{ms}",
                          lambda: P.u(a, m, norm=norm, c=carg, coord=coord), want,
                          1e-4 if name.endswith("Inf") and numeric else 1e-6,
                          float((1e-5 if name.endswith("Inf") else 2e-3 if numeric else 1e-7) * top.max()))
    # small wavenumbers
    if not E.S.inf or E.S.total:
        for m in (1e11, 1e15):
            k = 1e-3 / E.rv(m)
            got = np.asarray(P.u(np.array([k, 2 * k]), m))
            res.transitions += 2
            if not np.allclose(got, 1, atol=2e-3):
                res.fail(f"u0:{p}:{e}", f"{name}{params} u -> {got} at small wavenumber")


def _integral(res, unit, tier):
    """Integrals of the library's own functions (no shape assumed)."""
    _, p, e = unit
    name, params, numeric = PROFS[p]
    E = Env(name, params, ENVS[e])
    P = E.prof
    t, w = np.polynomial.legendre.leggauss(200)
    s = 0.5 * (t + 1)
    for m in (1e11, 3e13, 2e15):
        for c in (None, 2.5, 17.0):
            rv = E.rv(m)
            out = 3000.0 if E.S.total else 1.0
            frac = out * s**8
            jac = out * 0.5 * w * 8 * s**7
            r = frac * rv
            d = np.asarray(P.rho(r, m, c=c))
            got = np.sum(jac * rv * 4 * np.pi * r**2 * d)
            res.states += 1
            res.traces += 1
            res.transitions += 3
            if not abs(got / m - 1) < 1e-3:
                res.fail(f"mass:{p}:{e}:{m:g}:{c}", f"{name}{params} density integrates to {got / m} of the mass")
            if E.S.total:
                continue
            q = np.array([1e-7, 0.1, 0.4, 0.8, 1.0])
            cdf = np.asarray(P.cdf(q * rv, m=m, c=c), float).ravel()
            if not (cdf[0] < 1e-4 * (40 if name == "Constant" else 40) and abs(cdf[-1] - 1) < 1e-5 and np.all(np.diff(cdf) > 0)):
                res.fail(f"cdf:{p}:{e}:{m:g}:{c}", f"{name}{params} cdf {cdf}")
            for i in (1, 2, 3):
                rr = q[i] * r
                part = np.sum(q[i] * jac * rv * 4 * np.pi * rr**2 * np.asarray(P.rho(rr, m, c=c, norm="m")))
                if not abs(part - cdf[i]) < 1e-3:
                    res.fail(f"cdfint:{p}:{e}:{m:g}:{c}", f"{name} cdf {cdf[i]} but density integrates to {part}")
    for at_z in (False, True):
        m = np.array([1e11, 1e14])
        r = P.halo_mass_to_radius(m, at_z=at_z)
        back = P.halo_radius_to_mass(r, at_z=at_z)
        res.transitions += 2
        if not np.allclose(back, m, rtol=1e-10):
            res.fail(f"radius:{p}:{e}", f"mass -> radius -> mass gives {back}")
        sr = P.scale_radius(m, at_z=at_z)
        bl = np.sqrt(nu(m)) ** ENVS[e].get("eta", 0.0)
        if not np.allclose(sr, r * bl / np.array([E.c(x) for x in m]), rtol=1e-10):
            res.fail(f"scale_radius:{p}:{e}", f"{name} scale_radius {sr}")
    w = np.array([E.rv(x) / np.sqrt(nu(x)) ** ENVS[e].get("eta", 0.0) for x in (1e11, 1e14)])
    # the velocity of a circular orbit at the virial radius, from the mass or the radius
    mv = np.array([3e10, 1e12, 5e14])
    rv = P.halo_mass_to_radius(mv)
    va, vb = P.virial_velocity(m=mv), P.virial_velocity(r=rv)
    res.transitions += 6
    if not (np.allclose(va, vb, rtol=1e-10) and np.allclose(va**2 * rv / mv, 6.673e-11, rtol=2e-3)):
        res.fail(f"virial_velocity:{p}:{e}", f"{name} virial velocity {va} of masses {mv}, {vb} of their radii")
    try:
        P.virial_velocity()
        res.fail(f"virial_velocity:{p}:{e}:none", f"{name} gives a virial velocity of nothing")
    except ValueError:
        pass
    if not np.allclose(P.halo_mass_to_radius(np.array([1e11, 1e14])), w, rtol=1e-10):
        res.fail(f"rvir:{p}:{e}", "virial radius")


def _custom(res, unit, tier):
    """A user profile that defines nothing but its shape."""

    class MyShape(profiles.Profile):
        def _f(self, x):
            return 1.0 / (x + 0.75) / (x + 1) ** 2

    class MyInf(profiles.ProfileInf):
        def _f(self, x):
            return 1.0 / (x * (1 + x) ** 3)

    for E0, cls, like in ((0, MyShape, "CoredNFW"), (1, MyShape, "CoredNFW")):
        E = Env(like, {}, ENVS[E0])
        P = cls(E.prof._cm_relation, mdef=E.prof.mdef, z=E.z, cosmo={0: Planck15, 1: WMAP5}[E0], nu_fn=nu)
        for m in (2e12, np.array([2e12, 1e14])):
            r = np.array([0.01, 0.05, 0.1])
            M = np.atleast_1d(m)
            want = np.array([[E.rho(v / (E.rv(x) / E.c(x)), x, E.c(x), "m") for x in M] for v in r])
            check(res, f"custom:rho:{E0}:{np.ndim(m)}", "user profile rho", lambda: P.rho(r, m, norm="m"), want, 5e-4)
            k = np.array([0.1, 2.0, 11.0])
            want = np.array([[E.u(float(v * E.rv(x) / E.c(x)), x, E.c(x), "m") for x in M] for v in k])
            check(res, f"custom:u:{E0}:{np.ndim(m)}", "user profile u", lambda: P.u(k, m), want, 1e-3, 2e-3)
