"""Independent reference integrals over the halo mass function.

Everything is integrated on its own fine mass grid (the mass function and bias of a model with
0.005 dex bins) with Simpson's rule, split at every cut-off of the occupation, so no spline,
interval or limit handling of the implementation is shared.
"""

from __future__ import annotations

import numpy as np
from scipy.integrate import simpson
from scipy.interpolate import CubicSpline

CUT_NAMES = ("M_min", "M_0", "M_max", "M_cut", "M_min_counts", "M_max_counts")
LN10 = np.log(10.0)


def cuts_of(hod):
    out = [float(v) for k, v in hod.params.items() if k in CUT_NAMES and v is not None]
    return sorted({v for v in out if 5 < v < 19} | {11.0, 11.1})


class MassIntegrals:
    """Mass function, bias and their integrals between arbitrary limits (log10 masses)."""

    def __init__(self, model, step=0.002):
        """model: a halo model with fine mass bins."""
        self.lm = np.log10(model.m)
        self._n = CubicSpline(self.lm, np.log(model.dndm))
        self._b = CubicSpline(self.lm, model.halo_bias)
        self.step = step

    def dndm(self, x):
        return np.exp(self._n(x))

    def bias(self, x):
        return self._b(x)

    def pieces(self, lo, hi, cuts=()):
        pts = [lo] + sorted(c for c in cuts if lo < c < hi) + [hi]
        for a, b in zip(pts, pts[1:]):
            n = max(5, int((b - a) / self.step)) | 1
            x = np.linspace(a, b, n)
            m = 10**x
            # stay inside the piece: limits of the occupation from the right / left side
            m[0] *= 1 + 1e-11
            m[-1] *= 1 - 1e-11
            yield x, m, self.dndm(x) * m * LN10

    def integrate(self, funcs, lo, hi, cuts=()):
        """funcs(m, x) -> list of integrand arrays (per unit mass, without dn/dm)."""
        tot = None
        for x, m, w in self.pieces(lo, hi, cuts):
            vals = [simpson(w * f, x=x, axis=-1) for f in funcs(m, x)]
            tot = vals if tot is None else [t + v for t, v in zip(tot, vals)]
        return [np.asarray(t) for t in tot]

    def jumps(self, funcs, cuts, dl):
        """Size of the unresolved variation of each integrand (per dex) at every cut.

        The jump at the cut itself, or the rise within the bin above it (all of it if from nothing, else a quarter).
        """
        out = None
        for c in cuts:
            x = np.array([c, c, c + dl])
            m = 10**x * np.array([1 - 1e-9, 1 + 1e-9, 1.0])
            w = self.dndm(x) * m * LN10
            v = []
            for f in funcs(m, x):
                d = np.abs(np.diff(w * f, axis=-1))
                steep = np.abs((w * f)[..., 1]) < 0.05 * np.abs((w * f)[..., 2])
                v.append(np.maximum(d[..., 0], np.where(steep, 1.0, 0.25) * d[..., 1]))
            out = v if out is None else [t + u for t, u in zip(out, v)]
        return out


class Spectra:
    """Reference one- and two-halo integrals of a parameter set (no mass-bin grid shared)."""

    def __init__(self, cls, params, step=0.01, dl=0.01):
        self.fine = cls(**dict(params, dlog10m=dl))
        f = self.fine
        self.I = MassIntegrals(f, step=step)
        self.rho0 = float(f.mean_density0)
        self.lo = float(np.log10(f.m[0]))
        self.dens_halo = 4 * np.pi / 3 * self.rho0 * float(f.halo_overdensity_mean)

    def um(self, k, m):
        f = self.fine
        return np.atleast_2d(f.halo_profile.u(k, m, c=f.halo_concentration.cm(m, f.z)))

    def ut(self, k, m):
        f = self.fine
        return np.atleast_2d(f.tracer_profile.u(k, m, c=f.tracer_concentration.cm(m, f.z)))

    def turnover(self, k):
        """log10 of the smallest mass that counts at wavenumber k."""
        return np.log10(self.dens_halo * (np.pi / k / 10) ** 3)

    def one_halo(self, k, top, hod=None, cutoff=None, turnover=True, dl=0.0):
        """Dict of one-halo integrals over [lo, top] at each k, with resolution tolerances."""
        names = ["matter"] if hod is None else ["cs", "ss", "cross"]
        cuts = [] if hod is None else cuts_of(hod)
        out = {n: np.zeros(len(k)) for n in names}
        tol = {n: np.zeros(len(k)) for n in names}
        for i, kk in enumerate(k):
            kk = np.array([kk])

            def funcs(m, x):
                um = self.um(kk, m)[0]
                if hod is None:
                    return [m**2 * um**2]
                ut = self.ut(kk, m)[0]
                nc = np.asarray(hod.central_occupation(m), float)
                ns = np.asarray(hod.satellite_occupation(m), float)
                return [
                    2 * np.asarray(hod.cs_pairs(m), float) * ut,
                    np.asarray(hod.ss_pairs(m), float) * ut**2,
                    m * um * (nc + ns * ut),
                ]

            for j, n in enumerate(names):
                lo = self.lo if (cutoff is None or n == "matter") else max(self.lo, cutoff)
                if turnover and n != "cross":
                    lo = max(lo, float(self.turnover(kk[0])))
                if lo >= top:
                    continue
                sel = lambda m, x, j=j: [funcs(m, x)[j]]  # noqa: E731
                out[n][i] = self.I.integrate(sel, lo, top, cuts)[0]
                near = [c for c in cuts if lo - 1.5 * dl < c < top + dl]
                if near:
                    # centrals are continued through a sharp cut-off only in the cross term
                    tol[n][i] = 0.8 * dl * float(self.I.jumps(sel, near, dl)[0])
        return out, tol

    def biases(self, k, top, hod=None, cutoff=None, dl=0.0):
        """Profile-weighted effective bias integrals (unnormalised) at each k."""
        cuts = [] if hod is None else cuts_of(hod)

        def funcs(m, x):
            b = self.I.bias(x)
            um = self.um(k, m)
            if hod is None:
                return [m * b * um]
            ut = self.ut(k, m)
            nc = np.asarray(hod.central_occupation(m), float)
            ns = np.asarray(hod.satellite_occupation(m), float)
            return [(nc + ns) * b * ut, b * (nc + ns * ut)]

        names = ["matter"] if hod is None else ["auto", "cross"]
        lo = self.lo if cutoff is None or hod is None else max(self.lo, cutoff)
        vals = self.I.integrate(funcs, lo, top, cuts)
        near = [c for c in cuts if lo - 1.5 * dl < c < top + dl]
        if near:
            def jf(m, x):
                v = funcs(m, x)
                if cutoff is not None and abs(x[0] - cutoff) < 1e-9:
                    ns = np.asarray(hod.satellite_occupation(m), float)
                    b, ut = self.I.bias(x), self.ut(k, m)
                    v = [ns * b * ut, ns * b * ut]
                return v
            j = self.I.jumps(jf, near, dl)
        else:
            j = [np.zeros(len(k))] * len(names)
        return {n: np.asarray(v) for n, v in zip(names, vals)}, {n: 0.8 * dl * np.asarray(t) for n, t in zip(names, j)}
