"""Reference halo-bias functions: plain scalar arithmetic, one halo at a time."""

import math

import numpy as np

T10_DELTA = (200, 300, 400, 600, 800, 1200, 1600, 2400, 3200)
T10_TABLE = {
    "beta": (0.589, 0.585, 0.544, 0.543, 0.564, 0.623, 0.637, 0.673, 0.702),
    "gamma": (0.864, 0.922, 0.987, 1.09, 1.20, 1.34, 1.50, 1.68, 1.81),
    "phi": (-0.729, -0.789, -0.910, -1.05, -1.20, -1.26, -1.45, -1.50, -1.49),
    "eta": (-0.243, -0.261, -0.261, -0.273, -0.278, -0.301, -0.301, -0.319, -0.336),
}
T10_EXP = {"beta": 0.20, "phi": -0.08, "eta": 0.27, "gamma": -0.01}

DEFAULTS = {
    "UnityBias": {}, "Mo96": {},
    "Jing98": dict(a=0.5, b=0.06, c=0.02),
    "ST99": dict(q=0.707, p=0.3),
    "SMT01": dict(a=0.707, b=0.5, c=0.6),
    "Seljak04": dict(a=0.53, b=0.39, c=0.45, d=0.13, e=40, f=5e-4, g=1.5),
    "Seljak04Cosmo": dict(a=0.53, b=0.39, c=0.45, d=0.13, e=40, f=5e-4, g=1.5, a1=0.4, a2=0.3),
    "Tinker05": dict(a=0.707, b=0.35, c=0.8),
    "Mandelbaum05": dict(q=0.73, p=0.15),
    "Pillepich10": dict(B0=0.647, B1=-0.320, B2=0.568),
    "Manera10": dict(q=0.709, p=0.248),
    "Tinker10": dict(B=0.183, b=1.5, c=2.4),
    "Tinker10PBSplit": dict(max_z=3),
}


def _st(nu, s, p):
    x = p["q"] * nu
    return 1 + (x - 1) / s["delta_c"] + 2 * p["p"] / s["delta_c"] / (1 + x ** p["p"])


def _smt(nu, s, p):
    a, b, c = p["a"], p["b"], p["c"]
    x = a * nu
    tail = x**c / (x**c + b * (1 - c) * (1 - c / 2)) / math.sqrt(a)
    return 1 + (x + b * x ** (1 - c) - tail) / s["delta_c"]


def _sel(nu, s, p):
    x = s["m"] / s["mstar"]
    return p["a"] + p["b"] * x ** p["c"] + p["d"] / (p["e"] * x + 1) + p["f"] * x ** p["g"]


def _selc(nu, s, p):
    lx = max(math.log10(s["m"] / s["mstar"]), -1.0)
    return _sel(nu, s, p) + lx * (
        p["a1"] * (s["Om0"] - 0.3 + s["n"] - 1) + p["a2"] * (s["sigma_8"] - 0.9 + s["h"] - 0.7)
    )


def _t10(nu, s, p):
    y = math.log10(s["delta_halo"])
    e = math.exp(-((4 / y) ** 4))
    A, a, C = 1 + 0.24 * y * e, 0.44 * y - 0.88, 0.019 + 0.107 * y + 0.19 * e
    v = math.sqrt(nu)
    return 1 - A * v**a / (v**a + s["delta_c"] ** a) + p["B"] * v ** p["b"] + C * v ** p["c"]


def t10_params(s, p):
    from scipy.interpolate import CubicSpline

    out = {}
    zz = 1 + min(s["z"], p.get("max_z", 3))
    for name, tab in T10_TABLE.items():
        vals = [p.get(f"{name}_{d}", t) for d, t in zip(T10_DELTA, tab)]
        hit = [v for d, v in zip(T10_DELTA, vals) if d == s["delta_halo"]]
        # (not-a-knot cubic through the tabulated over-densities)
        v0 = hit[0] if hit else float(CubicSpline(T10_DELTA, vals)(s["delta_halo"]))
        out[name] = v0 * zz ** p.get(f"{name}_exp", T10_EXP[name])
    return out


def _t10pbs(nu, s, p):
    t = s.get("_t10") or t10_params(s, p)
    dc = s["delta_c"]
    return (
        1
        + (t["gamma"] * nu - (1 + 2 * t["eta"])) / dc
        + 2 * t["phi"] / dc / (1 + (t["beta"] ** 2 * nu) ** t["phi"])
    )


FORMS = {
    "UnityBias": lambda nu, s, p: 1.0,
    "Mo96": lambda nu, s, p: 1 + (nu - 1) / s["delta_c"],
    "Jing98": lambda nu, s, p: (1 + (nu - 1) / s["delta_c"])
    * (p["a"] / nu**2 + 1) ** (p["b"] - p["c"] * s["n_eff"]),
    "ST99": _st,
    "Mandelbaum05": _st,
    "Manera10": _st,
    "SMT01": _smt,
    "Tinker05": _smt,
    "Seljak04": _sel,
    "Seljak04Cosmo": _selc,
    "Pillepich10": lambda nu, s, p: p["B0"] + p["B1"] * math.sqrt(nu) + p["B2"] * nu,
    "Tinker10": _t10,
    "Tinker10PBSplit": _t10pbs,
}


def expected(name, nu, m, n_eff, state, params):
    """Bias of every halo; state has delta_c, mstar, delta_halo, n, sigma_8, h, Om0, z."""
    p = dict(DEFAULTS[name], **params)
    s0 = dict(state)
    if name == "Tinker10PBSplit":
        s0["_t10"] = t10_params(s0, p)
    return np.array(
        [FORMS[name](float(v), dict(s0, m=float(mm), n_eff=float(ne)), p) for v, mm, ne in zip(nu, m, n_eff)]
    )
