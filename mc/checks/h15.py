"""H15: interpolators, integrators and transforms are exact in their domain."""

from __future__ import annotations

import itertools
import warnings

import numpy as np
from scipy.interpolate import make_interp_spline

from ..core import Result
from ..impl import tools

id = "H15"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (data shape x sign x grid x extrapolation below x above x matching x degree x "
    "argument kind x query region) for the extended interpolator, (integrand x grid x limit pair x coordinate) for the "
    "spline integrator and (known transform pair x scale x direction x algorithm x step) for the transforms, every "
    "state evaluated on the real code against closed forms"
)
level_note = (
    "Complete over the lattice. Transforms are asserted only where the documented step size resolves the "
    "function (stated per pair); absolute accuracy of the underlying FITPACK splines is taken as given."
)
rule = (
    "state = one (data, options, argument) or (integrand, limits) or (pair, scale, algorithm) configuration; "
    "transition = one evaluation compared with the closed form"
)
assumptions = [
    "scipy's not-a-knot cubic interpolation (make_interp_spline) is correct",
    "limits outside the tabulated range are warned about and not covered by the exactness claim",
]

GRIDS = {
    "lin": np.linspace(0.5, 6.0, 12),
    "log": np.logspace(-2, 2, 21),
    "int": np.arange(1, 15),
    "irr": np.array([0.3, 0.4, 0.7, 0.9, 1.6, 2.2, 3.7, 4.1, 5.9, 8.0, 11.0, 15.0, 16.5]),
    "short": np.array([1.0, 2.0, 4.0, 8.0]),
    "neg": np.linspace(-3.0, 4.0, 15),
}
DATA = {
    "pl": lambda x: 3.0 * x**-1.5,
    "pl+": lambda x: 0.02 * x**0.9,
    "pos": lambda x: np.exp(-0.3 * x) + 0.1,
    "-pl": lambda x: -2.0 * x**-0.7,
    "-pos": lambda x: -(np.exp(-0.3 * x) + 0.1),
    "sign": lambda x: np.cos(1.3 * x),
    "zero": lambda x: 0.0 * x,
    "ints": lambda x: (np.round(x) * 2 + 1).astype(int),
}
EXT = ["none", "power_law", "boundary", "zero", "fnc", "fnc-unmatched", "fnc-vanishing"]
KINDS = ["float", "npfloat", "int", "npint", "list", "array", "intarray", "2d", "empty", "0d"]


def fnc(x):
    return np.asarray(x) ** 2 + 0.5 if not np.isscalar(x) else x**2 + 0.5


PAIRS = {
    # name: (P(k), xi(r)) for unit scale
    "gauss": (lambda k: (2 * np.pi) ** 1.5 * np.exp(-(k**2) / 2), lambda r: np.exp(-(r**2) / 2)),
    "exp": (lambda k: 8 * np.pi / (1 + k**2) ** 2, lambda r: np.exp(-r)),
    "yukawa": (lambda k: 4 * np.pi / (1 + k**2), lambda r: np.exp(-r) / r),
}
#: (algorithm, h) -> pair -> direction -> (smallest r, largest r, tolerance) in units of the scale
RANGE = {
    ("hankel", 0.005): {"gauss": (0.3, 3.5, 1e-4), "exp": (0.3, 8, 2e-5), "yukawa": (0.1, 7, 2e-3)},
    ("hankel", 0.001): {"gauss": (0.1, 4, 1e-5), "exp": (0.1, 8, 2e-5), "yukawa": (0.1, 8, 1e-3)},
    ("hankel", 0.0001): {"gauss": (0.02, 4, 1e-5), "exp": (0.02, 8, 2e-5), "yukawa": (0.05, 8, 1e-3)},
    ("ogata", 0.005): {"gauss": (0.3, 3.5, 1e-4), "exp": (0.3, 8, 2e-5), "yukawa": (0.1, 7, 2e-3)},
    ("ogata", 0.001): {"gauss": (0.1, 3.5, 1e-4), "exp": (0.1, 8, 2e-5), "yukawa": (0.1, 7, 1e-3)},
    ("simpson", None): {"gauss": (0.1, 4, 1e-7), "exp": (0.1, 8, 1e-7), "yukawa": (0.1, 2.0, 2e-5)},
}


def bounds(tier):
    return (
        f"{len(GRIDS)} grids x {len(DATA)} data shapes x {len(EXT)}^2 extrapolations x degrees "
        f"{'1,2,3' if tier == 'thorough' else '1,3'} x {len(KINDS)} argument kinds; 8 integrands x 5 grids x all pairs of "
        f"limits from nodes, mid-points, zero and None; {len(PAIRS)} transform pairs x scales x {len(RANGE)} algorithms "
        "x both directions, linearity, round trips, per-separation functions"
    )


def units(tier):
    ks = (1, 2, 3) if tier == "thorough" else (1, 3)
    u = [("spline", g, d, k) for g in GRIDS for d in DATA for k in ks]
    u += [("integral", g) for g in GRIDS]
    scales = (0.05, 1.0, 20.0) if tier == "quick" else (0.01, 0.05, 0.3, 1.0, 4.0, 20.0, 100.0)
    u += [("transform", a, p, s) for a in RANGE for p in PAIRS for s in scales]
    u += [("linear",), ("window",), ("roundtrip",)]
    return u


def power_law_ok(res, key, ext, xs, pts, y, what):
    """ext is a pure power law through pts, exact for exact data, with a slope the data support."""
    v = np.array([float(ext(float(p))) for p in pts])
    sgn = np.sign(y[0])
    if not np.all(np.sign(v) == sgn):
        res.fail(key, f"{what}: extrapolation {v} has not the sign of the data")
        return
    s = np.diff(np.log(np.abs(v))) / np.diff(np.log(pts))
    if not np.allclose(s, s[0], rtol=1e-6, atol=1e-8):
        res.fail(key, f"{what}: not a power law, local slopes {s}")
    ds = np.diff(np.log(np.abs(y))) / np.diff(np.log(xs))
    if not (ds.min() - 1e-6 <= s[0] <= ds.max() + 1e-6):
        res.fail(key, f"{what}: slope {s[0]} outside the slopes of the data {ds.min()}..{ds.max()}")
    amp = np.log(np.abs(v[0]))
    # the line must pass through the cloud of data points
    off = np.log(np.abs(y)) - (amp + s[0] * (np.log(xs) - np.log(pts[0])))
    if off.min() > 1e-6 or off.max() < -1e-6:
        res.fail(key, f"{what}: power law misses the data by {off}")


def run_spline(unit, res):
    _, g, d, k = unit
    x = GRIDS[g]
    if d.lstrip("-").startswith("pl") and g == "neg":
        return
    y = DATA[d](x.astype(float))
    yf = y.astype(float)
    ref = make_interp_spline(x.astype(float), yf, k=k) if k != 2 else None
    n = min(10, len(x))
    allow = {e: np.all(v > 0) or np.all(v < 0) for e, v in (("lower", yf[:n]), ("upper", yf[-n:]))}
    xm = 0.5 * (x[1:] + x[:-1])
    span = float(x[-1] - x[0])
    below = [x[0] - 0.03 * span, x[0] - 0.7 * span] if g == "neg" else [0.9 * x[0], 0.13 * x[0]]
    above = [x[-1] + 0.02 * span, x[-1] + 2.5 * span]
    if g == "int":
        above = [17, 40]
        below = [0.5, 0.1]
    for lo, hi in itertools.product(EXT, EXT):
        if g == "neg" and "power_law" in (lo, hi):
            continue
        opt = {}
        for side, e in (("lower", lo), ("upper", hi)):
            opt[side + "_func"] = {"none": None, "power_law": "power_law", "boundary": "boundary", "zero": tools._zero,
                                   "fnc": fnc, "fnc-unmatched": fnc,
                                   "fnc-vanishing": lambda t, x0=(x[0] if side == "lower" else x[-1]): t - x0}[e]
            if e == "fnc-unmatched":
                opt["match_" + side] = False
        s = tools.ExtendedSpline(x, y, k=k, **opt)
        res.states += 1
        what = f"x={g} y={d} k={k} lower={lo} upper={hi}"

        def expected(q, e, end):
            """Closed-form extrapolation at q, or None for a power law (checked separately)."""
            edge = float(x[0] if end == "lower" else x[-1])
            edgey = float(yf[0] if end == "lower" else yf[-1])
            if e == "none":
                return float(ref(q)) if ref is not None else None
            if e == "boundary":
                return edgey
            if e == "zero":
                return 0.0
            if e == "fnc":
                return fnc(q) * edgey / fnc(edge)
            if e == "fnc-unmatched":
                return fnc(q)
            if e == "fnc-vanishing":
                return q - edge
            return None if allow[end] else 0.0

        # nodes exactly, mid-points as the interpolating spline
        scale = np.max(np.abs(yf)) + 1e-300
        for q, want in zip(x, yf):
            res.transitions += 1
            if abs(float(s(float(q))) - want) > 1e-9 * scale:
                res.fail(f"node:{lo}:{hi}", f"{what}: s({q}) = {s(float(q))}, data {want}")
                break
        for q in xm:
            res.transitions += 1
            if ref is not None and abs(float(s(float(q))) - float(ref(q))) > 1e-9 * scale:
                res.fail(f"mid:k={k}", f"{what}: s({q}) = {s(float(q))}, spline {ref(q)}")
                break
        vals = {}
        for end, e, qs in (("lower", lo, below), ("upper", hi, above)):
            for q in qs:
                q = float(q)
                w = expected(q, e, end)
                got = float(s(q))
                vals[q] = got
                res.transitions += 1
                tol = 1e-7 * (abs(w) if w is not None else 1) + 1e-9 * scale
                if w is not None and not abs(got - w) <= tol:
                    res.fail(f"ext:{end}:{e}:{'neg' if d[0] == '-' else 'pos'}", f"{what}: s({q}) = {got}, expected {w}")
            if e == "power_law" and allow[end]:
                sl = slice(0, n) if end == "lower" else slice(len(x) - n, None)
                pts = sorted([float(q) for q in qs] + [0.31 * float(x[0]) if end == "lower" else 5.3 * float(x[-1])])
                power_law_ok(res, f"power_law:{end}:{'neg' if d[0] == '-' else 'pos'}", s, x[sl].astype(float), pts,
                             yf[sl], what)
        # every kind of argument gives the same answers
        qs = [float(below[0]), float(x[0]), float(x[1]), float(xm[1]), float(x[-1]), float(above[0]), float(above[1])]
        scal = np.array([float(s(q)) for q in qs])
        iq = [int(np.ceil(x[0])), int(np.floor(x[-1])), int(np.ceil(x[-1])) + 3, int(np.ceil(x[0])) + 1]
        if g == "neg":
            iq.append(int(x[0]) - 2)
        iscal = np.array([float(s(float(q))) for q in iq])
        for kind in KINDS:
            res.transitions += 1
            try:
                if kind == "float":
                    got, want = scal, scal
                elif kind == "npfloat":
                    got, want = np.array([float(s(np.float64(q))) for q in qs]), scal
                elif kind == "int":
                    got, want = np.array([float(s(q)) for q in iq]), iscal
                elif kind == "npint":
                    got, want = np.array([float(s(np.int64(q))) for q in iq]), iscal
                elif kind == "list":
                    got, want = s(list(qs)), scal
                elif kind == "array":
                    got, want = s(np.array(qs)), scal
                elif kind == "intarray":
                    got, want = s(np.array(iq)), iscal
                elif kind == "2d":
                    got, want = s(np.array([qs, qs[::-1]])), np.array([scal, scal[::-1]])
                elif kind == "empty":
                    got, want = s(np.array([])), np.array([])
                else:
                    got = np.array([float(s(np.array(q))) for q in qs])
                    want = scal
            except Exception as e:
                res.fail(f"kind:{kind}", f"{what}: {type(e).__name__}: {e}")
                continue
            got = np.asarray(got)
            if got.shape != np.shape(want) or not np.allclose(got, want, rtol=1e-10, atol=1e-12 * scale):
                res.fail(f"kind:{kind}", f"{what}: {got} != {want} for {kind} arguments {iq if 'int' in kind else qs}")
    # number of points used by the power law
    if g != "neg" and len(x) > 8 and np.all(yf > 0):
        for n in (2, 3, 5):
            brk = np.where(np.arange(len(x)) < n, x.astype(float) ** 1.2, 1.0 + x.astype(float) ** -0.4)
            s = tools.ExtendedSpline(x, brk, lower_func="power_law", upper_func=tools._zero, lower_power_law_n=n, k=k)
            res.states += 1
            got = float(s(0.2 * float(x[0])))
            if not np.isclose(got, (0.2 * float(x[0])) ** 1.2, rtol=1e-6):
                res.fail("power_law_n:lower", f"n={n} on {g}: {got}")
            brk = brk[::-1]
            brk = np.where(np.arange(len(x)) >= len(x) - n, x.astype(float) ** -0.8, 1.0 + x.astype(float))
            s = tools.ExtendedSpline(x, brk, lower_func=tools._zero, upper_func="power_law", upper_power_law_n=n, k=k)
            got = float(s(4.0 * float(x[-1])))
            if not np.isclose(got, (4.0 * float(x[-1])) ** -0.8, rtol=1e-6):
                res.fail("power_law_n:upper", f"n={n} on {g}: {got}")
    try:
        tools.ExtendedSpline(x, y, domain=(float(x[0]) + 1e-6, np.inf))
        res.fail("domain", "data outside the domain accepted")
    except ValueError:
        pass
    try:
        tools.ExtendedSpline(x, y, lower_func="nonsense")
        res.fail("badfunc", "unknown extrapolation accepted")
    except ValueError:
        pass
    res.sample({"data": d, "grid": g, "k": k})


def run_integral(unit, res):
    g = unit[1]
    x = GRIDS[g].astype(float)
    nodes = [float(x[0]), float(x[1]), float(x[len(x) // 2]), float(x[-2]), float(x[-1])]
    mids = [float(0.4 * x[0] + 0.6 * x[1]), float(0.5 * (x[2] + x[3]) if len(x) > 4 else 0.5 * (x[1] + x[2])),
            float(0.3 * x[-2] + 0.7 * x[-1])]
    lims = [None] + nodes + mids + ([0.0, -0.5] if g == "neg" else [])
    forms = ["p0", "p1", "p2", "p3", "cos", "neg", "wild"]
    for log in (True, False):
        if log and g == "neg":
            continue
        t = np.log(x) if log else x
        for f in forms:
            poly = {"p0": [2.0], "p1": [1.0, -3.0], "p2": [0.5, 1.0, 2.0], "p3": [-0.7, 0.3, 1.0, 1.5],
                    "neg": [-4.0, -1.0]}.get(f)
            if poly is not None:
                h = np.polyval(poly, t)
                prim = np.polyint(poly)
                ref = lambda a, b: np.polyval(prim, b) - np.polyval(prim, a)  # noqa: E731
            else:
                h = np.cos(2 * t) if f == "cos" else np.where(np.arange(len(x)) % 2, 3.0, -1.0)
                sp = make_interp_spline(t, h, k=3)
                ref = sp.integrate
            integrand = h / x if log else h
            for a, b in itertools.product(lims, lims):
                lo = x[0] if a is None else a
                hi = x[-1] if b is None else b
                if lo > hi:
                    continue
                res.states += 1
                res.transitions += 1
                want = float(ref(np.log(lo), np.log(hi))) if log else float(ref(lo, hi))
                got = float(tools.spline_integral(x, integrand, xmin=a, xmax=b, log=log))
                if not np.isclose(got, want, rtol=1e-8, atol=1e-9 * np.max(np.abs(h)) * (t[-1] - t[0])):
                    res.fail(f"integral:log={log}:{'zero-limit' if 0.0 in (a, b) else 'limit'}",
                             f"grid {g}, {f}: integral {a}..{b} = {got}, expected {want}")
    res.sample({"integral": g, "limits": lims})


def ends(alg, pair, s):
    a, b, tol = RANGE[alg][pair]
    return np.geomspace(a, b, 9) * s, tol


def run_transform(unit, res):
    _, alg, pair, s = unit
    P1, X1 = PAIRS[pair]
    # scale s: xi_s(r) = xi(r/s), P_s(k) = s^3 P(k s)
    P = lambda k: s**3 * P1(k * s)  # noqa: E731
    X = lambda r: X1(r / s)  # noqa: E731
    r, tol = ends(alg, pair, s)
    name, h = alg
    if name == "hankel":
        got = tools.hankel_transform(P, r, "r", h=h)
        cases = [("P->xi", got, X(r))]
        if pair != "yukawa":
            k = r / s**2
            cases.append(("xi->P", tools.hankel_transform(X, k, "k", h=h), P(k)))
        fs = [(lambda k, i=i: (i + 1) * P(k)) for i in range(len(r))]
        cases.append(("list", tools.hankel_transform(fs, r, "r", h=h), (np.arange(len(r)) + 1) * X(r)))
        # one separation at a time gives the same
        cases.append(("single", np.array([tools.hankel_transform(P, np.array([q]), "r", h=h)[0] for q in r]), X(r)))
    elif name == "ogata":
        kt = np.logspace(-4, 4, 1600) / s
        cases = [("P->xi", tools.power_to_corr_ogata(P(kt), kt, r, h=h), X(r))]
        p2 = np.array([(i + 1) * P(kt) for i in range(len(r))])
        cases.append(("2d", tools.power_to_corr_ogata(p2, kt, r, h=h), (np.arange(len(r)) + 1) * X(r)))
        if pair != "yukawa":
            rt = np.logspace(-4, 3, 1600) * s
            k = r / s**2
            cases.append(("xi->P", tools.corr_to_power_ogata(X(rt), rt, k, h=h), P(k)))
    else:
        if not 0.3 <= s <= 3:
            return  # fixed k range of this routine
        got = tools.power_to_corr(lambda lnk: P(np.exp(lnk)), r)
        cases = [("P->xi", got, X(r)), ("scalar", tools.power_to_corr(lambda lnk: P(np.exp(lnk)), [float(r[3])]), X(r[3:4]))]
    for what, got, want in cases:
        res.states += 1
        res.transitions += len(r)
        # the transform is stopped at an absolute tolerance of 1e-8 on the r^3-weighted sum
        floor = 3e-8 / (2 * np.pi**2 * r**3) if what != "xi->P" else 4 * np.pi * 3e-8 / (r / s**2) ** 3
        if len(floor) != len(want):
            floor = floor[:1]
        err = np.abs(got - want)
        if not np.all(err <= tol * np.abs(want) + floor):
            j = int(np.argmax(err / (tol * np.abs(want) + floor)))
            res.fail(f"transform:{name}:{what}", f"{pair} scale {s} h={h}: at {r[min(j, len(r) - 1)]} got {got[j]}, "
                     f"expected {want[j]}")
    res.sample({"pair": pair, "scale": s, "algorithm": name, "h": h})


def run_linear(res):
    r = np.geomspace(0.3, 5, 8)
    kt = np.logspace(-4, 4, 1200)
    for (na, (Pa, _)), (nb, (Pb, _)) in itertools.product(PAIRS.items(), PAIRS.items()):
        for c1, c2 in itertools.product((1.0, -2.0, 50.0), (0.0, 3.0, -1e4)):
            res.states += 1
            res.transitions += 2
            f = lambda k: c1 * Pa(k) + c2 * Pb(k)  # noqa: E731
            a, b = tools.hankel_transform(Pa, r, "r"), tools.hankel_transform(Pb, r, "r")
            got = tools.hankel_transform(f, r, "r")
            tol = 1e-6 * (abs(c1) * np.abs(a) + abs(c2) * np.abs(b)) + 3e-8 * (1 + abs(c1) + abs(c2)) / r**3
            if not np.all(np.abs(got - c1 * a - c2 * b) <= tol):
                res.fail("linear:hankel", f"T({c1}*{na}+{c2}*{nb}) is not the sum: {got} vs {c1 * a + c2 * b}")
            pos = (False, False)
            a = tools.power_to_corr_ogata(Pa(kt), kt, r, power_pos=pos, rtol=1e-9)
            b = tools.power_to_corr_ogata(Pb(kt), kt, r, power_pos=pos, rtol=1e-9)
            got = tools.power_to_corr_ogata(f(kt), kt, r, power_pos=pos, rtol=1e-9)
            if not np.all(np.abs(got - c1 * a - c2 * b) <= 1e-5 * (abs(c1) * np.abs(a) + abs(c2) * np.abs(b))):
                res.fail("linear:ogata", f"T({c1}*{na}+{c2}*{nb}) is not the sum: {got} vs {c1 * a + c2 * b}")
    # values that are not numbers count as no power
    P = PAIRS["exp"][0]
    got = tools.hankel_transform(lambda k: np.where(k > 1e3, np.nan, P(k)), r, "r")
    want = tools.hankel_transform(lambda k: np.where(k > 1e3, 0.0, P(k)), r, "r")
    if not np.allclose(got, want, rtol=1e-12):
        res.fail("nan", "NaN power is not treated as zero")
    for bad in ("x", "q"):
        try:
            tools.hankel_transform(P, r, bad)
            res.fail("badname", f"transform variable {bad!r} accepted")
        except ValueError:
            pass


def run_roundtrip(res):
    r = np.geomspace(0.5, 4, 6)
    rt = np.geomspace(1e-3, 60, 350)
    for name, s in itertools.product(("gauss", "exp"), (1.0, 3.0)):
        P1, X1 = PAIRS[name]
        P = lambda k: s**3 * P1(k * s)  # noqa: E731
        k = r / s**2
        xi = tools.hankel_transform(P, rt * s, "r", h=1e-3)
        f = tools.ExtendedSpline(rt * s, X1(rt), lower_func="boundary", upper_func=tools._zero)
        back = tools.hankel_transform(f, k, "k", h=1e-3)
        res.states += 1
        res.transitions += 2
        good = (rt > 0.1) & (rt < 4)
        if not np.allclose(xi[good], X1(rt[good]), rtol=1e-4):
            res.fail("roundtrip:forward", f"{name} {s}")
        if not np.allclose(back, P(k), rtol=1e-3):
            res.fail("roundtrip:back", f"{name} scale {s}: {back} vs {P(k)}")


def run_window(res):
    for rr in (0.1, 2.0, 30.0):
        k = np.geomspace(0.02, 30, 50) / rr
        w = tools.exclusion_window(k, rr)
        q = np.linspace(0, rr, 20001)
        from scipy.integrate import simpson

        for kk, ww in zip(k, w):
            res.states += 1
            res.transitions += 1
            want = simpson(q**2 * np.sinc(kk * q / np.pi), x=q) * 3 / rr**3
            if not abs(ww - want) < 1e-6:
                res.fail("window", f"exclusion_window({kk}, {rr}) = {ww}, expected {want}")


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    {"spline": lambda: run_spline(unit, res), "integral": lambda: run_integral(unit, res),
     "transform": lambda: run_transform(unit, res), "linear": lambda: run_linear(res),
     "window": lambda: run_window(res), "roundtrip": lambda: run_roundtrip(res)}[unit[0]]()
    res.traces = res.states
    return res
