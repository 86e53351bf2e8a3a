"""H11: halo exclusion models remove exactly the overlapping pairs."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel, grid, halo_exclusion as HX

id = "H11"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (exclusion model x mass grid x lower mass limit x bias form x separation x "
    "wavenumber x density shape); the real double integrals are bracketed by an independent fine quadrature at "
    "separations one and a half mass bins either way, and all pairs of model variants are compared in every state"
)
level_note = (
    "Exhaustive over the lattice. The real masks live on the mass grid, so an integral is only required to lie between "
    "the exact integrals whose boundary is shifted by 1.5 mass bins."
)
rule = "state = (mass grid, limit, bias form, density shape, model) ; transition = one (r, k) value bracketed ; trace = one exclusion object"
assumptions = ["mass function and occupation enter only through the arrays handed to the component (checked by H07)"]

MODELS = ["NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_", "NgMatched", "NgMatched_"]
HALO_DENS = 200 * 8.5e10
#: name -> (log10 m0, number of points, step in dex)
GRIDS = {"odd": (10.0, 121, 0.05), "even": (10.0, 122, 0.05), "coarse": (9.0, 64, 0.1), "fine": (11.0, 251, 0.02)}
#: offset of the limit from the start of the grid, in bins (None: no limit, negative: below the grid)
LIMITS = {"none": None, "below": -3.0, "first": 0.0, "node": 24.0, "between": 24.37, "between2": 31.81}
SHAPES = {"smooth": (-0.4, 13.8), "steep": (-0.9, 14.5), "rising": (0.3, 13.2)}
BIASES = ["flat", "mass", "2d"]
R = np.array([0.02, 0.15, 0.35, 0.7, 1.1, 1.7, 2.6, 4.0, 7.0, 12.0, 60.0])
K = np.array([0.01, 0.8, 6.0])


def bounds(tier):
    return {"models": MODELS, "grids": list(GRIDS) if tier != "quick" else ["odd", "even", "coarse"],
            "limits": list(LIMITS), "shapes": list(SHAPES), "biases": BIASES, "separations": len(R), "wavenumbers": len(K)}


def units(tier):
    b = bounds(tier)
    out = [("comp", g, l, s) for g in b["grids"] for l in b["limits"] for s in b["shapes"]]
    out += [("alone", m) for m in MODELS] + [("weights", m) for m in MODELS]
    out += [("model", c) for c in range(len(CFG) if tier != "quick" else 4)]
    return out


class Case:
    """Analytic density, power integrand and bias of one lattice point."""

    def __init__(self, g, lim, shape, bias):
        l0, n, step = GRIDS[g]
        self.m = 10 ** (l0 + step * np.arange(n))
        self.dl = step * np.log(10)
        off = LIMITS[lim]
        self.xmin = None if off is None else float(10 ** (l0 + step * off))
        self.lo = np.log(self.m[0]) if self.xmin is None else max(np.log(self.xmin), np.log(self.m[0]))
        self.hi = np.log(self.m[-1])
        self.p, self.lc = SHAPES[shape]
        self.kind = bias
        x = np.linspace(self.lo, self.hi, 6001)
        self.x = x
        self.norm = 1.0
        self.norm = 1 / np.trapezoid(self.dens(np.exp(x)) * np.exp(x), x)

    def dens(self, m):
        """Density per unit mass; m*dens ~ power law with a cut-off."""
        return self.norm * (m / 1e13) ** self.p * np.exp(-((m / 10**self.lc) ** 0.7)) / m

    def pint(self, k, m):
        u = 1 / (1 + (np.outer(k, (m / 1e13) ** (1 / 3.0)) / 2.0) ** 2)
        return self.dens(m) * u

    def bias(self, m, r=None):
        if self.kind == "flat":
            return np.ones_like(m)
        b = 0.7 + 0.5 * (m / 1e13) ** 0.25
        if self.kind == "mass":
            return b
        return np.outer((1 + 0.3 * np.exp(-np.asarray(r) / 3)), b)

    def make(self, name):
        m = self.m
        return getattr(HX, name)(
            m=m, density=self.dens(m), power_integrand=self.pint(K, m), bias=self.bias(m, R), r=R,
            halo_density=HALO_DENS, xmin=self.xmin,
        )

    # ---- oracle ----
    def radius(self, x):
        return (3 * np.exp(x) / (4 * np.pi * HALO_DENS)) ** (1 / 3)

    def funcs(self, ir):
        """Integrands per ln m at separation index ir: density, then one per k."""
        m = np.exp(self.x)
        b = self.bias(m, R)
        b = b[ir] if b.ndim == 2 else b
        return np.vstack([self.dens(m) * m, self.pint(K, m) * b * m])

    def single(self, f, xm):
        """Integral up to xm of each row."""
        C = np.concatenate([np.zeros((len(f), 1)), np.cumsum((f[:, 1:] + f[:, :-1]) / 2, axis=1) * (self.x[1] - self.x[0])], axis=1)
        return np.array([np.interp(xm, self.x, c) for c in C])

    def pairs(self, f, name, r):
        """Double integral over pairs that do not overlap at separation r (and the density one)."""
        if name.startswith("No"):
            return self.single(f, self.hi) ** 2
        if name == "Sphere":
            return self.single(f, np.log(4 * np.pi * (r / 2) ** 3 * HALO_DENS / 3)) ** 2
        if name.startswith("DblSphere"):
            left = r - self.radius(self.x)
            xm = np.where(left > 0, np.log(4 * np.pi / 3 * HALO_DENS * np.maximum(left, 1e-30) ** 3), self.lo - 1)
            inner = self.single(f, xm)
            return np.trapezoid(f * inner, self.x, axis=1)
        s = slice(None, None, 10)
        x = self.x[s]
        y = r / np.add.outer(self.radius(x), self.radius(x))
        y = np.clip((y - 0.8) / 0.29, 0, 1)
        P = 3 * y**2 - 2 * y**3
        w = np.full(len(x), x[1] - x[0])
        w[[0, -1]] /= 2
        fw = f[:, s] * w
        return np.einsum("ai,ij,aj->a", fw, P, fw)

    def expected(self, name, ir, shift):
        """(density_mod, pair integrals per k) with the boundary shifted by `shift` mass bins."""
        f = self.funcs(ir)
        r = R[ir] * np.exp(shift * self.dl / 3)
        if name.startswith("NgMatched"):
            d = np.sqrt(self.pairs(f[:1], "DblEllipsoid", R[ir])[0])
            tot = self.single(f, self.x)
            xm = np.interp(1.0001 * d, tot[0], self.x)
            if 1.0001 * d >= tot[0][-1]:
                xm = self.hi
            return d, self.single(f, xm + shift * self.dl)[1:] ** 2
        p = self.pairs(f, name, r)
        if name == "Sphere":
            return np.sqrt(p[0]), p[1:]
        return np.sqrt(p[0]), p[1:]


def compiled(name):
    return name.endswith("_")


def run_comp(u, tier, res):
    _, g, lim, shape = u
    for kind in BIASES:
        case = Case(g, lim, shape, kind)
        got = {}
        full = np.array([case.single(case.funcs(i), case.hi)[1:] ** 2 for i in range(len(R))])
        for name in MODELS:
            key = f"comp:{g}:{lim}:{shape}:{kind}:{name}"
            res.states += 1
            res.traces += 1
            try:
                ex = case.make(name)
                I = np.array(ex.integrate(), float)
                D = np.array(ex.density_mod, float) * np.ones(len(R)) if not name.startswith("No") else np.ones(len(R))
            except Exception as e:
                res.fail(key, f"raises {type(e).__name__}: {e}")
                continue
            want_shape = (1, len(K)) if (name == "NoExclusion" and kind != "2d") else (len(R), len(K))
            if I.shape != want_shape:
                res.fail(key, f"integral has shape {I.shape}, expected {want_shape}")
                continue
            I = I * np.ones((len(R), len(K)))
            got[name] = (D, I)
            base = name
            soft = 4e-3 * (case.dl / 0.115) ** 2 + 2e-4
            hard = 1.5 if name not in ("NoExclusion", "DblEllipsoid", "DblEllipsoid_") else 0.5
            for i in range(len(R)):
                res.transitions += 1 + len(K)
                dlo, plo = case.expected(base, i, -hard)
                dhi, phi = case.expected(base, i, hard)
                # the last pair integral is small against the total: compare relative to the total as well
                if name != "NoExclusion" and not (dlo * (1 - soft) - soft - 0.05 * (dhi - dlo) <= D[i] <= dhi * (1 + soft) + soft):
                    res.fail(f"{key}:density", f"r={R[i]}: modified density {D[i]:.6g}, expected between {dlo:.6g} and {dhi:.6g}")
                for j in range(len(K)):
                    t = soft * full[i, j]
                    if not (plo[j] * (1 - soft) - t <= I[i, j] <= phi[j] * (1 + soft) + t):
                        res.fail(f"{key}:pairs", f"r={R[i]} k={K[j]}: pair integral {I[i, j]:.6g}, expected between {plo[j]:.6g} and {phi[j]:.6g} (all pairs {full[i, j]:.6g})")
            # laws
            if "NoExclusion" in got and name != "NoExclusion":
                D0, I0 = got["NoExclusion"]
                res.transitions += 3
                # the same quadrature on the same grid: at large separation nothing is removed
                tol = 1e-3 if "NgM" in name else 2e-4 if compiled(name) else 1e-6
                tol += soft if name in ("DblEllipsoid_",) else 0
                if np.any(np.abs(I[-1] / I0[-1] - 1) > tol):
                    res.fail(f"{key}:large", f"at r={R[-1]} the integral is {I[-1]}, without exclusion {I0[-1]}")
                if np.any(I > I0 * (1 + 2 * soft) + 1e-12):
                    res.fail(f"{key}:adds", f"exclusion adds pairs: max ratio {np.max(I / I0):.6g}")
                left = 1e-10 * I0[0]
                if name.startswith("NgM"):  # the first mass bin is never masked
                    left = case.expected(name, 0, 1.5)[1] * 2
                if lim.startswith("betw") or lim == "node":  # splines ring next to the masked bins
                    left = left + 1e-3 * I0[0]
                if np.any(I[0] > left):
                    res.fail(f"{key}:small", f"pairs left at r={R[0]}: {I[0] / I0[0]}")
                f1 = (1 + 0.3 * np.exp(-R / 3)) if kind == "2d" else np.ones(len(R))
                J = I / f1[:, None] ** 2
                if np.any(np.diff(J, axis=0) < -soft * J[-1]):
                    res.fail(f"{key}:monotone", f"fewer pairs at larger separation: {J[:, 0]}")
        for a in ("DblSphere", "DblEllipsoid", "NgMatched"):
            if a in got and a + "_" in got:
                res.transitions += 2
                t = 1e-3 if a == "DblSphere" else soft
                Da, Ia = got[a]
                Db, Ib = got[a + "_"]
                if np.any(np.abs(Da - Db) > t * Da[-1]) or (a != "NgMatched" and np.any(np.abs(Ia - Ib) > t * Ia[-1])):
                    res.fail(f"comp:{g}:{lim}:{shape}:{kind}:{a}:compiled", f"compiled variant differs: density {np.max(np.abs(Da - Db)):.3g}, pairs {np.max(np.abs(Ia / Ia[-1] - Ib / Ia[-1])):.3g}")
    res.sample({"case": list(u)})


def run_alone(u, tier, res):
    """Order of use and reuse do not matter; arguments are not modified."""
    name = u[1]
    for lim, kind, order in itertools.product(("none", "between"), BIASES, itertools.permutations(("density_mod", "integrate", "raw"))):
        case = Case("odd", lim, "smooth", kind)
        ex = case.make(name)
        args = {a: np.array(getattr(ex, a)) for a in ("m", "density", "power_integrand", "bias", "r")}
        ref = case.make(name)
        want = {"integrate": np.array(ref.integrate()), "density_mod": np.array(case.make(name).density_mod)}
        res.states += 1
        res.traces += 1
        for rep in range(2):
            for o in order:
                res.transitions += 1
                v = ex.raw_integrand() if o == "raw" else ex.integrate() if o == "integrate" else ex.density_mod
                if o == "raw":
                    b = args["bias"] if args["bias"].ndim == 2 else np.ones(len(R))[:, None] * args["bias"]
                    w = args["power_integrand"][None] * b[:, None, :] * args["m"]
                else:
                    w = want[o]
                if not np.allclose(v, w, rtol=1e-9, atol=0):
                    res.fail(f"alone:{name}:{lim}:{kind}:{'-'.join(order)}", f"{o} (pass {rep}) depends on what was asked before")
                for a, x in args.items():
                    if not np.array_equal(getattr(ex, a), x):
                        res.fail(f"alone:{name}:{lim}:{kind}:{a}", f"{o} modifies its argument {a}")


CFG = [
    dict(hod_model="Zheng05"),
    dict(hod_model="Zehavi05", hod_params={"central": True}, z=0.6),
    dict(hod_model="Zehavi05", hod_params={"M_min": 11.93}, mdef_model="SOVirial"),
    dict(hod_model="Tinker05", sd_bias_model="TinkerSD05", mdef_model="SOMean", mdef_params={"overdensity": 300}),
    dict(hod_model="Zheng05", sd_bias_model="TinkerSD05", z=1.0),
    dict(hod_model="Zehavi05", hod_params={"central": True, "M_min": 12.21}, hmf_model="SMT", mdef_model="SOCritical", mdef_params={"overdensity": 500}),
]


def run_model(u, tier, res):
    """The components of a real halo model are handed the model's own ingredients and limits."""
    cfg = CFG[u[1]]
    p = grid(Mmin=9, Mmax=15.5, dlog10m=0.05, rmin=0.05, rmax=60, rnum=12, dr_table=0.05)
    p.update(cfg)
    base = TracerHaloModel(exclusion_model="NoExclusion", **p)
    r = base.r
    rt = base._r_table
    base_t, base_m = np.array(base.corr_2h_auto_tracer), np.array(base.corr_2h_auto_matter)
    for name in MODELS[1:] if tier != "quick" else ["Sphere", "DblSphere", "DblEllipsoid", "NgMatched", "DblEllipsoid_"]:
        key = f"model:{u[1]}:{name}"
        h = base.clone(exclusion_model=name)
        res.states += 1
        res.traces += 1
        dens_halo = float(h.halo_overdensity_mean) * float(h.mean_density0)
        b2 = np.ones(len(rt))[:, None] * h.halo_bias
        if h.sd_bias_model is not None:
            b2 = np.outer(h.sd_bias_correction, h.halo_bias)
        occ = h._total_occupation
        for what, ex, dens, lim in (
            ("matter", h._matter_exclusion, None, None),
            ("tracer", h._tracer_exclusion, h.dndm * occ / h.mean_tracer_den, h.tracer_mmin),
        ):
            res.transitions += 5
            if type(ex).__name__ != name:
                res.fail(key, f"{what}: component is {type(ex).__name__}")
                continue
            if not np.isclose(ex.halo_density, dens_halo, rtol=1e-9):
                res.fail(key, f"{what}: halo density {ex.halo_density:.6g}, model has {dens_halo:.6g}")
            if not np.allclose(ex.r, rt, rtol=1e-9):
                res.fail(key, f"{what}: separations differ from the model's table")
            prof = (h.tracer_profile_ukm if what == "tracer" else h.halo_profile_ukm)
            if not np.allclose(ex.power_integrand, prof * ex.density, rtol=1e-6, atol=1e-12 * np.max(ex.density)):
                res.fail(key, f"{what}: the power integrand is not the density times the profile transform")
            n = float(np.trapezoid(ex.density * ex.m, np.log(ex.m)))
            lo = ex.xmin
            if what == "tracer":
                if (lim is None or lim <= h.m[0]) != (lo is None) or (lo is not None and not np.isclose(lo, lim)):
                    res.fail(key, f"tracer: lower limit {lo}, the model's is {lim}")
                if not np.allclose(ex.density, dens, rtol=1e-9):
                    res.fail(key, "tracer: density is not dndm*N/n_tracer")
                n = n if lo is None else None
            if n is not None and abs(n - 1) > 2e-2:
                res.fail(key, f"{what}: density integrates to {n:.6g}")
            B = ex.bias if ex.bias.ndim == 2 else np.ones(len(rt))[:, None] * ex.bias
            if not np.allclose(B, b2 * np.ones_like(B), rtol=1e-9):
                res.fail(key, f"{what}: bias handed to the exclusion model is not the model's")
        for what, got, ref in (("tracer", h.corr_2h_auto_tracer, base_t), ("matter", h.corr_2h_auto_matter, base_m)):
            res.transitions += 3
            got = np.array(got)
            if not np.all(np.isfinite(got)):
                res.fail(key, f"{what}: correlation not finite")
                continue
            big = r > 25
            # an occupation that jumps between mass bins depends on the quadrature rule
            jump = what == "tracer" and h.hod.sharp_cut and h.tracer_mmin is None
            if np.any(np.abs(got[big] - ref[big]) > (3e-2 if jump else 3e-3) * np.abs(ref[big])):
                res.fail(key, f"{what}: at large separation {got[big]}, without exclusion {ref[big]}")
            if np.any(got > ref * (1 + (3e-2 if jump else 5e-3)) + 1e-6):
                i = np.argmax(got / ref)
                res.fail(key, f"{what}: exclusion increases the correlation at r={r[i]:.3g}: {got[i]:.6g} > {ref[i]:.6g}")
            if abs(got[0]) > 0.2 * ref[0]:
                res.fail(key, f"{what}: at r={r[0]:.3g} correlation {got[0]:.6g} of {ref[0]:.6g} is left")
    res.sample({"config": {k: str(v) for k, v in cfg.items()}})


def run_weights(u, tier, res):
    """Where no pair overlaps, every number of mass bins integrates a line in log-mass exactly."""
    name = u[1]
    far = np.array([1e3, 3e3])
    for n in range(4, 41 if tier == "quick" else 201):
        for step, lim, (a, b) in itertools.product((0.05, 0.3), (None, 0.0, 0.4, 1.0, 1.7), ((1.0, 0.0), (1.0, 0.7), (3.0, -0.05))):
            m = 10 ** (9 + step * np.arange(n)) if step * n < 6 else 10 ** (9 + 6 / n * np.arange(n))
            l = np.log(m / m[0])
            xmin = None if lim is None else float(m[0] * (m[1] / m[0]) ** lim)
            lo = 0.0 if xmin is None else np.log(xmin / m[0])
            f = lambda x, a=a, b=b, l=l: a + b * x / l[-1]  # noqa: E731
            dens = f(l) / m
            pint = np.array([1.0, 0.3])[:, None] * dens
            one = (f(lo) + f(l[-1])) / 2 * (l[-1] - lo)
            key = f"weights:{name}:{n}:{step}:{lim}:{a},{b}"
            res.states += 1
            res.transitions += 6
            ex = getattr(HX, name)(m=m, density=dens, power_integrand=pint, bias=np.ones(n), r=far, halo_density=HALO_DENS, xmin=xmin)
            got = np.array(ex.integrate(), float) * np.ones((2, 2))
            want = one**2 * np.array([1.0, 0.09]) * np.ones((2, 2))
            if not np.allclose(got, want, rtol=1e-8):
                res.fail(key, f"all pairs of {n} masses integrate to {got[0]}, expected {want[0]}")
            if not name.startswith("NoExcl"):
                d = np.array(ex.density_mod, float) * np.ones(2)
                if not np.allclose(d, one, rtol=1e-8):
                    res.fail(f"{key}:density", f"the density of {n} masses is {d}, expected {one}")


def run_unit(u, tier):
    res = Result()
    {"comp": run_comp, "alone": run_alone, "weights": run_weights, "model": run_model}[u[0]](u, tier, res)
    return res
