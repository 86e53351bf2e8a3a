"""H18: angular correlation functions are Limber projections."""

from __future__ import annotations

import itertools

import numpy as np
from astropy.cosmology import WMAP7, FlatLambdaCDM, Planck15
from scipy.interpolate import InterpolatedUnivariateSpline

from ..core import Result
from ..impl import grid, integrate_corr

id = "H18"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (distribution of each sample x parametrisation x normalisation x cosmology x "
    "redshift range x correlation shape x angles x resolution) for the real projector and model class; every angle is "
    "compared with an independent quadrature over comoving distance of the normalised distributions"
)
level_note = "Exhaustive over the lattice of options; distributions, angles and correlation shapes are representative."
rule = "state = one point of the option lattice ; transition = one angle compared ; trace = one projection"
assumptions = ["astropy's comoving distance and expansion rate", "the correlation function itself is right (H08-H10)"]

COSMO = {"default": None, "Planck15": Planck15, "WMAP7": WMAP7, "lowh": FlatLambdaCDM(H0=55, Om0=0.4)}
RANGES = {"mid": (0.2, 0.4), "wide": (0.1, 1.1), "thin": (0.5, 0.56), "zero": (0.0, 0.3)}
XI = {
    "p18": lambda r: (r / 5.0) ** -1.8,
    "p14": lambda r: (r / 5.0) ** -1.4 * np.exp(-r / 60),
    "core": lambda r: 10.0 / (1 + (r / 2.0) ** 2) ** 1.2,
    "bao": lambda r: (r / 5.0) ** -1.9 * np.exp(-r / 25) + 0.01 * np.exp(-((r - 105) ** 2) / 200.0),
}
THETA = {"log": np.geomspace(2e-5, 0.05, 7), "one": np.array([0.003]), "lin": np.linspace(0.001, 0.02, 4), "rev": np.array([0.02, 3e-4])}


def dists(z1, z2):
    """name -> unnormalised distribution in redshift."""
    zm, w = 0.5 * (z1 + z2), 0.25 * (z2 - z1)
    zz = np.linspace(z1, z2, 40)
    return {
        "flat": integrate_corr.flat_z_dist(z1, z2),
        "flat5": lambda z: 5.0 * integrate_corr.flat_z_dist(z1, z2)(z),
        "gauss": lambda z: np.exp(-0.5 * ((z - zm) / w) ** 2),
        "ramp": lambda z: 0.3 + (z - z1) / (z2 - z1),
        "spline": InterpolatedUnivariateSpline(zz, 7.0 * np.exp(-0.5 * ((zz - zm - w / 2) / w) ** 2)),
    }


PAIRS = [("flat", None), ("flat5", None), ("gauss", None), ("spline", None), ("gauss", "gauss"), ("flat", "ramp"), ("ramp", "flat"),
         ("gauss", "spline"), ("spline", "flat5")]


def bounds(tier):
    return {"cosmologies": list(COSMO), "ranges": RANGES, "correlations": list(XI), "angles": list(THETA), "pairs": PAIRS, "models": len(MODELS)}


def units(tier):
    return [("fn", c, r) for c in COSMO for r in RANGES] + [("flat",), ("grids",)] + [("model", i) for i in range(len(MODELS))]


def cosmo_of(name):
    if COSMO[name] is None:
        from hmf import Cosmology

        return Cosmology().cosmo
    return COSMO[name]


def simpson_w(x):
    w = np.full(len(x), 4.0)
    w[2:-1:2] = 2
    w[[0, -1]] = 1
    return w * (x[1] - x[0]) / 3


def reference(theta, xi, p1, p2, z1, z2, umin, umax, cosmo, of_z, normalise=True):
    """2 int dx P1(x) P2(x) int du xi(sqrt(u^2 + x^2 theta^2)), P normalised per comoving distance in Mpc/h."""
    h = cosmo.h
    if of_z:
        z = np.linspace(z1, z2, 801)
        x = cosmo.comoving_distance(z).value * h
        dx = cosmo.hubble_distance.value * h / cosmo.efunc(z)
        wz = simpson_w(z)
        a, b = np.asarray(p1(z), float), np.asarray(p2(z), float)
        a = a / np.sum(wz * a) if normalise else a
        b = b / np.sum(wz * b) if normalise else b
        wx = wz * a * b / dx  # dx * (dz/dx)^2 = dz / (dx/dz)
    else:
        x = np.linspace(cosmo.comoving_distance(z1).value * h, cosmo.comoving_distance(z2).value * h, 801)
        w = simpson_w(x)
        a, b = np.asarray(p1(x), float), np.asarray(p2(x), float)
        a = a / np.sum(w * a) if normalise else a
        b = b / np.sum(w * b) if normalise else b
        wx = w * a * b
    lu = np.linspace(np.log(10**umin), np.log(10**umax), 1601)
    u = np.exp(lu)
    wu = simpson_w(lu) * u
    out = np.empty(len(theta))
    for i, t in enumerate(theta):
        R = np.sqrt((x[:, None] * t) ** 2 + u**2)
        out[i] = 2 * wx @ (np.asarray(xi(R.ravel())).reshape(R.shape) @ wu)
    return out


def run_fn(u, tier, res):
    _, c, rg = u
    cosmo = cosmo_of(c)
    z1, z2 = RANGES[rg]
    D = dists(z1, z2)
    x1, x2 = (cosmo.comoving_distance(z).value * cosmo.h for z in (z1, z2))
    pick = list(itertools.product(range(len(PAIRS)), (True, False)))
    for n, (pi, of_z) in enumerate(pick):
        a, b = PAIRS[pi]
        # as functions of distance: the same shapes over the distance range
        f = D if of_z else {k: (v if k == "spline" else v) for k, v in dists(x1, x2).items()}
        p1, p2 = f[a], (None if b is None else f[b])
        xs = list(XI) if tier != "quick" else [list(XI)[(n + j) % len(XI)] for j in range(2)]
        for xn, tn in itertools.product(xs, THETA if tier != "quick" else [list(THETA)[n % len(THETA)], "log"]):
            if rg == "zero" and xn != "core":
                continue  # the integral is dominated by the nearest bin
            xi, theta = XI[xn], THETA[tn].copy()
            key = f"fn:{c}:{rg}:{a}-{b}:{'z' if of_z else 'x'}:{xn}:{tn}"
            res.states += 1
            res.traces += 1
            res.transitions += len(theta)
            kw = dict(znum=161, unum=401, p2=p2, cosmo=COSMO[c], p_of_z=of_z)
            got = np.asarray(integrate_corr.angular_corr_gal(theta, xi, p1, z1, z2, -4, 2.3, **kw))
            want = reference(theta, xi, p1, p2 or p1, z1, z2, -4, 2.3, cosmo, of_z)
            if got.shape != theta.shape:
                res.fail(key, f"shape {got.shape} for {theta.shape} angles")
                continue
            if not np.array_equal(theta, THETA[tn]):
                res.fail(key, "the angles were changed")
            if not np.allclose(got, want, rtol=TOL, atol=0):
                i = int(np.argmax(np.abs(got / want - 1)))
                res.fail(key, f"w({theta[i]:.4g}) = {got[i]:.6g}, the Limber integral is {want[i]:.6g}")
            # equal samples, explicit or not; swapped samples
            res.transitions += 3
            if b is None:
                same = np.asarray(integrate_corr.angular_corr_gal(theta, xi, p1, z1, z2, -4, 2.3, **dict(kw, p2=p1)))
            else:
                same = np.asarray(integrate_corr.angular_corr_gal(theta, xi, p2, z1, z2, -4, 2.3, **dict(kw, p2=p1)))
            if not np.allclose(same, got, rtol=1e-9):
                res.fail(key, "giving the same sample twice differs from leaving the second out" if b is None else "swapping the two samples changes the result")
            s7 = (lambda q: lambda y: 7.0 * np.asarray(q(y)))(p1)
            scaled = np.asarray(integrate_corr.angular_corr_gal(theta, xi, s7, z1, z2, -4, 2.3, **kw))
            if not np.allclose(scaled, got, rtol=TOL):
                res.fail(key, f"the result depends on the normalisation of the distribution: {scaled[0] / got[0]:.6g}")
            raw = np.asarray(integrate_corr.angular_corr_gal(theta, xi, p1, z1, z2, -4, 2.3, **dict(kw, check_p_norm=False)))
            wraw = reference(theta, xi, p1, p2 or p1, z1, z2, -4, 2.3, cosmo, of_z, normalise=False)
            if not np.allclose(raw, wraw, rtol=TOL):
                res.fail(key, f"without normalisation check: {raw[0]:.6g}, expected {wraw[0]:.6g}")
    res.sample({"cosmology": c, "range": [z1, z2]})


TOL = 4e-3


def run_flat(u, tier, res):
    """Uniform distributions integrate to one and vanish outside."""
    for z1, z2 in itertools.product((0.0, 0.1, 0.5, 1.2), (0.55, 0.9, 1.3, 3.0)):
        if z2 <= z1:
            continue
        f = integrate_corr.flat_z_dist(z1, z2)
        z = np.linspace(z1, z2, 101)
        for zz in (z, z[50:51], 0.5 * (z1 + z2), [z1, z2]):
            res.states += 1
            res.transitions += 1
            v = np.asarray(f(zz))
            if v.size != np.size(zz) or not np.allclose(v, 1 / (z2 - z1)):
                res.fail(f"flat:{z1}:{z2}", f"value {v.ravel()[:3]} inside, expected {1 / (z2 - z1):.6g}")
        out = np.asarray(f(np.array([z1 - 1e-6, z2 + 1e-6])))
        if np.any(out != 0):
            res.fail(f"flat:{z1}:{z2}", f"value {out} outside")
        res.traces += 1
    for n, c in COSMO.items():
        cosmo = cosmo_of(n)
        z = np.array([0.0, 0.1, 0.7, 2.5])
        e = 1e-5
        want = (cosmo.comoving_distance(z + e).value - cosmo.comoving_distance(np.maximum(z - e, 0)).value) * cosmo.h / (e + np.minimum(z, e))
        res.transitions += len(z)
        got = integrate_corr.dxdz(z, cosmo)
        if not np.allclose(got, want, rtol=1e-4):
            res.fail(f"dxdz:{n}", f"derivative of distance {got}, expected {want}")


MODELS = [
    dict(zmin=0.2, zmax=0.4, z=0.3),
    dict(zmin=0.2, zmax=0.4, z=0.3, cosmo_model="WMAP7", theta_log=False, theta_num=5),
    dict(zmin=0.6, zmax=1.0, z=0.8, p="gauss", theta_min=1e-4, theta_max=2e-2, theta_num=6, hod_model="Zheng05"),
    dict(zmin=0.6, zmax=1.0, z=0.8, p="ramp", p2="gauss", theta_num=4, cosmo_params={"Om0": 0.4, "H0": 60.0}),
    dict(zmin=0.3, zmax=0.5, z=0.4, p="gauss", of_x=True, theta_num=4),
    dict(zmin=0.3, zmax=0.5, z=0.4, p="ramp", p2="spline", of_x=True, theta_num=3, check_p_norm=False),
    dict(zmin=0.3, zmax=0.5, z=0.4, p="flat5", logu_min=-3.0, logu_max=1.8, unum=201, znum=61, theta_num=1, theta_min=0.002),
]


def run_model(u, tier, res):
    cfg = dict(MODELS[u[1]])
    a, b, of_x = cfg.pop("p", None), cfg.pop("p2", None), cfg.pop("of_x", False)
    p = grid(**cfg)
    for k in ("rnum", "rmin", "rmax"):
        p.pop(k)
    probe = integrate_corr.AngularCF(**p)
    cosmo = probe.cosmo
    z1, z2 = cfg["zmin"], cfg["zmax"]
    r = (z1, z2) if not of_x else tuple(cosmo.comoving_distance(z).value * cosmo.h for z in (z1, z2))
    D = dists(*r)
    p["znum"], p["unum"] = cfg.get("znum", 161), cfg.get("unum", 401)
    if a:
        p["p1"] = D[a]
    if b:
        p["p2"] = D[b]
    h = integrate_corr.AngularCF(p_of_z=not of_x, **p)
    key = f"model:{u[1]}"
    t1, t2, n = cfg.get("theta_min", 1e-3 * np.pi / 180), cfg.get("theta_max", np.pi / 180), cfg.get("theta_num", 30)
    theta = np.geomspace(t1, t2, n) if cfg.get("theta_log", True) else np.linspace(t1, t2, n)
    res.states += 1
    res.traces += 2
    res.transitions += 2 * n + 3
    if not np.allclose(h.theta, theta, rtol=1e-12):
        return res.fail(key, f"angles {h.theta}, requested {theta}")
    x = cosmo.comoving_distance(np.linspace(z1, z2, p["znum"])).value * cosmo.h
    if not np.allclose(h.xvec, x, rtol=1e-9):
        res.fail(key, f"distance grid starts at {h.xvec[0]:.6g} Mpc/h, the distance is {x[0]:.6g}")
    lo = np.hypot(10 ** cfg.get("logu_min", -4), theta.min() * x[0])
    hi = np.hypot(10 ** cfg.get("logu_max", 2.3), theta.max() * x[-1])
    if not np.allclose([h.r[0], h.r[-1]], [lo, hi], rtol=1e-9):
        res.fail(key, f"separations span {h.r[0]:.6g}..{h.r[-1]:.6g}, the projection needs {lo:.6g}..{hi:.6g}")
    norm = cfg.get("check_p_norm", True)
    p1 = D[a or "flat"]
    p2 = D[b] if b else p1
    for what, got, xi in (("tracer", h.angular_corr_gal, h.corr_auto_tracer_fnc), ("matter", h.angular_corr_matter, h.corr_auto_matter_fnc)):
        w = reference(theta, xi, p1, p2, z1, z2, cfg.get("logu_min", -4), cfg.get("logu_max", 2.3), cosmo, not of_x, norm)
        got = np.asarray(got)
        if not np.allclose(got, w, rtol=1e-2, atol=1e-4 * np.max(np.abs(w))):
            i = int(np.argmax(np.abs(got / w - 1)))
            res.fail(f"{key}:{what}", f"w({theta[i]:.4g}) = {got[i]:.6g}, the Limber integral is {w[i]:.6g}")
    res.sample({"model": str(cfg)})
    return None


def run_grids(u, tier, res):
    """The requested angles, redshifts and separations, for every small number of them."""
    h = integrate_corr.AngularCF(**grid(z=0.3))
    for n, log, (t1, t2) in itertools.product([*range(1, 10), 30], (True, False), ((1e-4, 0.02), (0.003, 0.004), (0.01, 0.01))):
        h.update(theta_num=n, theta_log=log, theta_min=t1, theta_max=t2)
        res.states += 1
        res.transitions += n
        want = [t1 * (t2 / t1) ** (i / max(n - 1, 1)) if log else t1 + (t2 - t1) * i / max(n - 1, 1) for i in range(n)]
        if np.shape(h.theta) != (n,) or not np.allclose(h.theta, want, rtol=1e-12):
            res.fail(f"grids:theta:{n}:{log}", f"{n} {'log' if log else 'linear'} angles between {t1} and {t2} are {h.theta}")
    for n, (z1, z2), m, (u1, u2) in itertools.product([*range(2, 8), 100], ((0.2, 0.4), (0.25, 0.9)), [*range(2, 8), 100], ((-4, 2.3), (-2, 1.5))):
        h.update(zmin=z1, zmax=z2, znum=n, logu_min=u1, logu_max=u2, unum=m)
        res.states += 1
        res.transitions += n + m
        if not np.allclose(h.zvec, [z1 + (z2 - z1) * i / (n - 1) for i in range(n)]):
            res.fail(f"grids:zvec:{n}", f"{n} redshifts between {z1} and {z2} are {h.zvec}")
        if not np.allclose(h.uvec, [10 ** (u1 + (u2 - u1) * i / (m - 1)) for i in range(m)]):
            res.fail(f"grids:uvec:{m}", f"{m} radial separations between 1e{u1} and 1e{u2} are {h.uvec}")

    # further arguments are for the correlation function
    th = np.array([0.002, 0.01])
    for (a, b), of_z, n in itertools.product([(2.0, 1.8), (0.5, 1.2), (1.0, 2.5), (3.0, None), (None, 1.5)], (True, False), (21, 41)):
        opt = {k: v for k, v in (("amp", a), ("slope", b)) if v is not None}
        pz = (lambda z: np.full(np.shape(z), 5.0)) if of_z else (lambda x: np.full(np.shape(x), 1e-3))
        kw = dict(znum=n, unum=n, p_of_z=of_z, check_p_norm=not of_z)
        got = integrate_corr.angular_corr_gal(th, lambda r, amp=1.0, slope=1.7: amp * (1 + r) ** -slope, pz, 0.3, 0.5, -3, 1.5, **kw, **opt)
        full = {"amp": 1.0, "slope": 1.7, **opt}
        want = integrate_corr.angular_corr_gal(th, lambda r, f=full: f["amp"] * (1 + r) ** -f["slope"], pz, 0.3, 0.5, -3, 1.5, **kw)
        res.states += 1
        res.transitions += 2
        if not np.allclose(got, want, rtol=1e-10):
            res.fail(f"xi_kw:{opt}:{of_z}", f"arguments {opt} for the correlation function give {got}, expected {want}")


def run_unit(u, tier):
    res = Result()
    {"fn": run_fn, "flat": run_flat, "grids": run_grids, "model": run_model}[u[0]](u, tier, res)
    return res
