"""Reference concentration-mass relations, one halo at a time (hmf's filter/growth taken as given)."""

import math

import numpy as np
from scipy.optimize import brentq

DUFFY = {
    "200c": {"full": (5.71, -0.084, 0.47), "relaxed": (6.71, -0.091, 0.44)},
    "vir": {"full": (7.85, -0.081, 0.71), "relaxed": (9.23, -0.090, 0.69)},
    "200m": {"full": (10.14, -0.081, 1.01), "relaxed": (11.93, -0.090, 0.99)},
}
DEFAULTS = {
    "Bullock01": dict(F=0.01, K=3.4, norm=1.0),
    "Bullock01Power": dict(a=9.0, b=-0.13, c=1.0, ms=None, norm=1.0),
    "Maccio07": dict(c_0=28.65, gamma=1.45, norm=1.0),
    "Duffy08": dict(a=None, b=None, c=None, ms=2e12, sample="relaxed", norm=1.0),
    "Zehavi11": dict(a=11.0, b=-0.13, c=1.0, ms=2.26e12, norm=1.0),
    "Ludlow16": dict(f=0.02, C=650, norm=1.0),
    "Ludlow16Empirical": dict(c0_0=3.395, c0_z=-0.215, beta_0=0.307, beta_z=0.54, gamma1_0=0.628,
                              gamma1_z=-0.047, gamma2_0=0.317, gamma2_z=-0.893, norm=1.0),
}
ALIAS = {"Ludlow2016": "Ludlow16", "Ludlow2016Empirical": "Ludlow16Empirical"}
NATIVE = {
    "Bullock01": {"200c"}, "Bullock01Power": {"200c"}, "Maccio07": {"200m"},
    "Duffy08": {"200c", "200m", "vir"}, "Zehavi11": {"200c"}, "Ludlow16": {"200c"},
    "Ludlow16Empirical": {"200c"},
}


class Env:
    """What the relation may use: linear sigma(m) at z=0, growth D(z), collapse threshold, densities."""

    def __init__(self, sigma, growth, delta_c, mdef, cosmo, h_profile):
        self.sigma, self.D, self.delta_c = sigma, growth, delta_c
        self.mdef, self.cosmo, self.h = mdef, cosmo, h_profile


def mass_nonlinear(e, z):
    f = lambda lm: e.sigma(math.exp(lm)) * e.D(z) - e.delta_c  # noqa: E731
    return math.exp(brentq(f, math.log(1e-2), math.log(1e18), xtol=1e-12))


def bullock01(m, z, p, e):
    # collapse of the fraction F of the mass:  D(zc) sigma(F m) = delta_c
    target = e.delta_c / e.sigma(p["F"] * m)
    if target >= e.D(0.0):
        zc = 0.0
    elif target <= e.D(50.0):
        zc = 50.0
    else:
        zc = brentq(lambda x: e.D(x) - target, 0.0, 50.0, xtol=1e-10)
    return p["norm"] * p["K"] * (max(zc, z) + 1) / (1 + z)


def power(m, z, a, b, c, ms, norm):
    return norm * a * (m / ms) ** b * (1 + z) ** (-c)


def bullock01power(m, z, p, e):
    ms = p["ms"] or mass_nonlinear(e, z)
    return power(m, z, p["a"], p["b"], p["c"], ms, p["norm"])


def duffy(m, z, p, e):
    tab = DUFFY.get(e.mdef, DUFFY["200c"])[p["sample"]]
    a, b, c = (t if p[k] is None else p[k] for k, t in zip("abc", tab))
    return power(m, z, a, b, c, p["ms"], p["norm"])


def maccio(m, z, p, e):
    return p["norm"] * p["c_0"] * 4 * (m / 1e11) ** -0.109 / (1 + z) ** p["gamma"]


def ludlow_emp(m, z, p, e):
    z1 = 1 + z
    c0 = p["c0_0"] * z1 ** p["c0_z"]
    be = p["beta_0"] * z1 ** p["beta_z"]
    g1 = p["gamma1_0"] * z1 ** p["gamma1_z"]
    g2 = p["gamma2_0"] * z1 ** p["gamma2_z"]
    nu0 = (4.135 - 0.564 * z1 - 0.210 * z1**2 + 0.0557 * z1**3 - 0.00348 * z1**4) / e.D(z)
    xi = 1e10 / m
    sig = e.D(z) * 22.26 * xi**0.292 / (1 + 1.53 * xi**0.275 + 3.36 * xi**0.198)
    y = e.delta_c / sig / nu0
    return p["norm"] * c0 * y**-g1 * (1 + y ** (1 / be)) ** (-be * (g2 - g1))


def ludlow(m, z, p, e):
    """Solve eqs 6 and 7 of Ludlow et al. (2016) for 1 <= c <= 100."""
    co = e.cosmo
    sf, s = e.sigma(p["f"] * m) ** 2, e.sigma(m) ** 2
    delta = e.overdensity_crit(z)

    def zform(c):
        rho = delta * c**3 * e.h(1.0) / e.h(c) / p["C"]
        br = (rho * (co.Om0 * (1 + z) ** 3 + co.Ode0) - co.Ode0) / co.Om0
        return br ** (1 / 3) - 1 if br > 0 else -1.0

    def resid(c):
        zf = zform(c)
        num = e.delta_c * (1 / e.D(zf) - 1 / e.D(z))
        return e.h(1.0) / e.h(c) - math.erfc(num / math.sqrt(2 * (sf - s)))

    grid = np.logspace(0, 2, 400)
    ok = [c for c in grid if 0 <= zform(c) <= 50]  # (hmf's growth is not defined consistently beyond)
    lo, hi = ok[0], ok[-1]
    rl, rh = resid(lo), resid(hi)
    if rl > 0 and rh > 0:
        return p["norm"] * lo
    if rl < 0 and rh < 0:
        return p["norm"] * hi
    return p["norm"] * brentq(resid, lo, hi, xtol=1e-10)


FORMS = {
    "Bullock01": bullock01, "Bullock01Power": bullock01power, "Zehavi11": bullock01power,
    "Maccio07": maccio, "Duffy08": duffy, "Ludlow16": ludlow, "Ludlow16Empirical": ludlow_emp,
}


def expected(name, m, z, params, env):
    name = ALIAS.get(name, name)
    p = dict(DEFAULTS[name], **params)
    return np.array([FORMS[name](float(x), z, p, env) for x in m])
