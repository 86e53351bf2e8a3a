"""Reference occupation functions: plain scalar arithmetic, one mass at a time."""

import math


def _sharp(m, p):
    return 1.0 if m >= 10 ** p["M_min"] else 0.0


def _window(m, p):
    return 1.0 if 10 ** p["M_min"] <= m <= 10 ** p["M_max"] else 0.0


def _power(m, p):
    return (m / 10 ** p["M_1"]) ** p["alpha"]


def lg(x):
    return math.log10(x)


# ---- Leauthaud et al 2011 (Behroozi 2010 stellar-to-halo mass relation, h=1 units)
def shmr(ls, p):
    a1 = 1.0 / (1.0 + p["redshift"]) - 1
    m0 = p["smhm_m0_0"] + p["smhm_m0_a"] * a1
    m1 = p["smhm_m1_0"] + p["smhm_m1_a"] * a1
    be = p["smhm_beta_0"] + p["smhm_beta_a"] * a1
    de = p["smhm_delta_0"] + p["smhm_delta_a"] * a1
    ga = p["smhm_gamma_0"] + p["smhm_gamma_a"] * a1
    y = ls - m0
    return m1 + be * y + 10 ** (de * y) / (1 + 10 ** (-ga * y)) - 0.5


def inverse_shmr(lm, p):
    lo, hi = -30.0, 14.0
    while shmr(hi, p) < lm:
        hi += 1
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if shmr(mid, p) < lm:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def l11_nc(m, p):
    ls = inverse_shmr(lg(m), p)
    return 0.5 * (1 - math.erf((p["sm_thresh"] - ls) / (math.sqrt(2) * p["sig_logmstar"])))


def l11_ns(m, p):
    knee = 0.72e12
    mt = 10 ** shmr(p["sm_thresh"], p)
    msat = knee * p["bsat"] * (mt / knee) ** p["betasat"]
    mcut = knee * p["bcut"] * (mt / knee) ** p["betacut"]
    return l11_nc(m, p) * (m / msat) ** p["alphasat"] * math.exp(-mcut / m)


def contreras_nc(m, p):
    y = lg(m) - p["M_min"]
    s = p["x"] * p["sig_logm"]
    return p["fcb"] * (1 - p["fca"]) * math.exp(-0.5 * (y / s) ** 2) + p["fca"] * (1 + math.erf(y / s))


def contreras_ns(m, p):
    y = lg(m) - p["M_1"]
    return p["fs"] * (1 + math.erf(y / p["delta"])) * _power(m, p)


def tinker05_ns(m, p):
    d = m - 10 ** p["M_min"]
    return 0.0 if d <= 0 else math.exp(-(10 ** p["M_cut"]) / d) * m / 10 ** p["M_1"]


def zheng_ns(m, p):
    d = m - 10 ** p["M_0"]
    return 0.0 if d <= 0 else (d / 10 ** p["M_1"]) ** p["alpha"]


def spinelli_c(m, p):
    return (
        m
        * (p["a1"] * (m / 1e10) ** p["beta"] * math.exp(-((m / 10 ** p["M_break"]) ** p["alpha"])) + p["a2"])
        * math.exp(-math.sqrt(10 ** p["M_1"] / m))
    )


def spinelli_s(m, p):
    if m < 1e11:
        return 0.0
    y = m / 10 ** p["M_break_sat"]
    return 10 ** p["M_0"] * y ** p["beta_sat"] * math.exp(-((1 / y) ** p["alpha_sat"]))


def _A(p):
    return 10 ** p["logA"]


#: name -> (central, satellite *without* an explicit central condition, inherent, discrete)
FORMS = {
    "Zehavi05": (_sharp, _power, False, True),
    "Zheng05": (
        lambda m, p: 0.5 * (1 + math.erf((lg(m) - p["M_min"]) / p["sig_logm"])), zheng_ns, False, True),
    "Contreras13": (contreras_nc, contreras_ns, False, True),
    "Geach12": (contreras_nc, contreras_ns, False, True),
    "Tinker05": (_sharp, tinker05_ns, True, True),
    "Zehavi05WithMax": (_window, _power, False, True),
    "Zehavi05Marked": (
        lambda m, p: _A(p) * _window(m, p), lambda m, p: _A(p) * _power(m, p), False, True),
    "ContinuousPowerLaw": (
        lambda m, p: 0.0, lambda m, p: _A(p) * (_power(m, p) + 1) * _window(m, p), False, False),
    "Constant": (
        lambda m, p: 0.0, lambda m, p: _A(p) if m > 10 ** p["M_min"] else 0.0, False, False),
    "Spinelli19": (spinelli_c, spinelli_s, False, True),
    "Leauthaud11": (l11_nc, l11_ns, True, True),
}


def per_central(name, m, p):
    if name == "Zehavi05Marked":
        return _A(p)
    if name == "Spinelli19":
        return 1.0 if 10 ** p["M_min_counts"] <= m <= 10 ** p["M_max_counts"] else 0.0
    return 1.0


def per_satellite(name, m, p):
    if name == "Spinelli19":
        if not 10 ** p["M_min_counts"] <= m <= 10 ** p["M_max_counts"]:
            return 0.0
        return (m / 10 ** p["M_1_counts"]) ** p["alpha_counts"]
    return per_central(name, m, p)


def expected(name, m, p, central):
    """Everything a model says about one halo of mass m."""
    fc, fs, inherent, discrete = FORMS[name]
    c, s = fc(m, p), fs(m, p)
    if not discrete:
        return dict(central=0.0, satellite=s, total=s, ss=s * s, cs=0.0, nc=0.0, ns=0.0,
                    sigma_s=float(p["sigma_A"]), sigma_c=0.0)
    a, b = per_central(name, m, p), per_satellite(name, m, p)
    nc = c / a if a else None
    if central and not inherent:
        s = None if nc is None else s * nc
    out = dict(central=c, satellite=s, total=None if s is None else c + s, nc=nc)
    if s is None:
        return dict(out, ss=None, cs=None, ns=None, sigma_s=None, sigma_c=None)
    out["ss"] = s * s
    out["cs"] = s * a if central else c * s
    out["ns"] = s / b if b else None
    # an amount A per object: Poisson number of satellites, Bernoulli number of centrals
    out["sigma_s"] = math.sqrt(s) if a == b == 1 else None
    out["sigma_c"] = a * math.sqrt(max(nc * (1 - nc), 0.0)) if nc is not None and nc <= 1 else None
    return out
