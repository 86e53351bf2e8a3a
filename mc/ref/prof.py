"""Independent halo-profile reference: shapes from the literature, everything else by quadrature."""

from __future__ import annotations

import functools

import numpy as np

_X, _W = np.polynomial.legendre.leggauss(40)
_T = 0.5 * (_X + 1)

PLW = dict(a=0.049, b=2.248)


def shape(name, p):
    """f(x) for (possibly complex) x."""
    a = p.get("alpha")
    return {
        "NFW": lambda x: 1 / (x * (1 + x) ** 2),
        "Hernquist": lambda x: 1 / (x * (1 + x) ** 3),
        "Moore": lambda x: 1 / (x**1.5 * (1 + x**1.5)),
        "Constant": lambda x: 1 + 0 * x,
        "GeneralizedNFW": lambda x: x ** -(1 if a is None else a) * (1 + x) ** ((1 if a is None else a) - 3),
        "Einasto": lambda x: np.exp(-2 / (a or 0.18) * (x ** (a or 0.18) - 1)),
        "CoredNFW": lambda x: 1 / ((x + 0.75) * (1 + x) ** 2),
        "PowerLawWithExpCut": lambda x: x ** -p.get("b", PLW["b"]) * np.exp(-p.get("a", PLW["a"]) * x),
    }[name.removesuffix("Inf")]


class Shape:
    """Integrals of one dimensionless profile."""

    def __init__(self, name, params):
        self.name = name
        self.inf = name.endswith("Inf") or name == "PowerLawWithExpCut"
        self.f = shape(name, params)
        self.total = name == "PowerLawWithExpCut"  # normalised over all space
        self.cut = params.get("a", PLW["a"]) if self.total else None

    @functools.lru_cache(None)  # noqa: B019
    def h_in(self, c):
        """Integral of f x^2 from 0 to c."""
        # x = c s^8 removes the cusp (x^(2-a) dx stays smooth for a < 3)
        out, edges = 0.0, np.linspace(0, 1, 9)
        for a, b in zip(edges[:-1], edges[1:]):
            s = a + (b - a) * _T
            x = c * s**8
            out += (b - a) / 2 * np.sum(_W * self.f(x) * x**2 * 8 * c * s**7)
        return float(out)

    @functools.lru_cache(None)  # noqa: B019
    def h(self, c):
        """The normalising integral."""
        if not self.total:
            return self.h_in(c)
        # to infinity: exponential cut-off
        return self.h_in(60.0 / self.cut)

    @functools.lru_cache(None)  # noqa: B019
    def p(self, K, c):
        """Integral of x sin(Kx)/K f(x): to c, or to infinity for untruncated profiles."""
        tail = 0.0
        if self.inf:
            # beyond the first half period rotate the contour: x = c + i t
            c = np.pi / K
            edges = np.linspace(0, 1, 65)
            s = (edges[:-1, None] + np.diff(edges)[:, None] * _T).ravel()
            w = (np.diff(edges)[:, None] / 2 * _W).ravel()
            t = 45.0 / K * s**2
            x = c + 1j * t
            if self.total and 45.0 / K * self.cut > 50:  # many turns of the cut-off: go straight
                c, tail = c + 45.0 / self.cut, 0.0
            else:
                z = 1j * np.exp(1j * K * c) * x * self.f(x) * np.exp(-K * t)
                tail = float(np.sum(w * z * 90.0 / K * s).imag / K)
        first = min(c, np.pi / K)
        out, edges = 0.0, np.linspace(0, 1, 9)
        for a, b in zip(edges[:-1], edges[1:]):
            s = a + (b - a) * _T
            x = first * s**8
            out += (b - a) / 2 * np.sum(_W * self.f(x) * x * np.sin(K * x) / K * 8 * first * s**7)
        if first < c:
            n = int(np.ceil((c - first) * K / np.pi)) * 2 + 8
            e = np.linspace(first, c, n + 1)
            if c / first > 4:
                e = np.unique(np.concatenate([e, np.geomspace(first, c, 40)]))
            x = (e[:-1, None] + np.diff(e)[:, None] * _T).ravel()
            w = (np.diff(e)[:, None] / 2 * _W).ravel()
            out += np.sum(w * self.f(x) * x * np.sin(K * x) / K)
        return float(out + tail)

    def m1(self, y):
        """Integral of t f(t) from 0 to y (only the shapes with a self-convolution)."""
        n = self.name.removesuffix("Inf")
        return {"NFW": lambda y: y / (1 + y), "Hernquist": lambda y: 0.5 * (1 - (1 + y) ** -2)}[n](y)

    @functools.lru_cache(None)  # noqa: B019
    def conv(self, x, c):
        """The self-convolution of f at separation x."""
        top = 1e5 if self.inf else c
        cap = np.inf if self.inf else c
        marks = sorted({0.0, *[m for m in (x, c - x, x - c, c) if 0 < m < top], top})
        out = 0.0
        for a, b in zip(marks[:-1], marks[1:]):
            e = np.linspace(0, 1, 41)
            if b / max(a, 1e-12) > 50:  # long piece
                e = np.concatenate([[0], np.geomspace(1e-7, 1, 80)])
            s = (e[:-1, None] + np.diff(e)[:, None] * _T).ravel()
            w = (np.diff(e)[:, None] / 2 * _W).ravel()
            y = a + (b - a) * s
            g = self.m1(np.minimum(y + x, cap)) - self.m1(np.minimum(np.abs(y - x), cap))
            out += np.sum(w * (b - a) * y * self.f(y) * g)
        return float(2 * np.pi / x * out)
