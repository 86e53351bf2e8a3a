"""H09: two-halo terms are effective-bias-squared times halo-centre power."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import DMHaloModel, TracerHaloModel
from ..ref.halo import Spectra
from .h08 import ENVS, HODS, PROFS, compare, hod_cases

id = "H09"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (environment x profiles x occupation, central condition, cut-off position x "
    "halo-centre spectrum x unity-bias switch x wavenumber, halo mass ranges); every two-halo spectrum of the real "
    "model is compared with independent profile-weighted bias integrals"
)
level_note = (
    "Complete over the lattice. The filter scales of the filtered spectra (2 and 3 Mpc/h) are the library's. The "
    "cross term uses the plain matter bias integral whatever force_unity_dm_bias says."
)
rule = "state = (environment, profiles, occupation, spectrum, switch, k) ; transition = one value compared ; trace = one model"
assumptions = [
    "linear and nonlinear power come from hmf; bias, profiles, occupations and densities are other properties' subjects",
    "the effective bias of the auto term weights all tracers with the profile, the cross term only satellites",
]

BASE = dict(transfer_model="EH", lnk_min=-9, lnk_max=8, dlnk=0.2, Mmin=10, Mmax=15.6, dlog10m=0.03)
SPECTRA = ("linear", "nonlinear", "filtered-lin", "filtered-nl")


def bounds(tier):
    return (
        f"{len(ENVS)} environments x {len(PROFS)} profile choices x {len(HODS)} occupations (central on/off) x "
        f"4 halo-centre spectra x unity on/off x wavenumbers from below the table to its top; all ordered pairs of 6 "
        "mass ranges for power_hh"
    )


def units(tier):
    return (
        [("pt", e, p, h) for e in range(len(ENVS)) for p in range(len(PROFS)) for h in range(len(HODS))]
        + [("matter", e, p) for e in range(len(ENVS)) for p in range(len(PROFS))]
        + [("hh", e) for e in range(len(ENVS))]
    )


_S = {}


def spectra(base, env, prof, key):
    if key not in _S:
        if len(_S) > 12:
            _S.clear()
        _S[key] = Spectra(TracerHaloModel, dict(base, **env, **prof))
    return _S[key]


def run_unit(unit, tier):
    return globals()["_" + unit[0]](unit, tier)


def wanted(m, tier):
    want = (3e-4, 0.01, 0.2, 0.8, 3.0) if tier == "quick" else (3e-4, 2e-3, 0.01, 0.05, 0.2, 0.45, 0.8, 1.5, 3.0, 10.0)
    return np.array([int(np.argmin(np.abs(np.log(m.k / w)))) for w in want])


def centre_power(m, name):
    """The halo-centre spectrum on the model's k, written independently."""
    if name == "linear":
        return np.array(m.power)
    if name == "nonlinear":
        return np.array(m.nonlinear_power)
    R, P = (2.0, m.power) if name == "filtered-lin" else (3.0, m.nonlinear_power)
    x = m.k * R
    W = np.where(x < 1e-4, 1 - x**2 / 10, 3 * (np.sin(x) - x * np.cos(x)) / np.maximum(x, 1e-30) ** 3)
    out = P * W
    neg = np.argmax(out <= 0) if np.any(out <= 0) else len(out)
    out[neg:] = 0
    return out


def _pt(unit, tier):
    _, e, p, h = unit
    res = Result()
    env, prof = ENVS[e], PROFS[p]
    name, hp = HODS[h]
    S = spectra(BASE, env, prof, (e, p))
    dl = BASE["dlog10m"]
    for pp, central in hod_cases(name, hp, tier, dl):
        m = TracerHaloModel(**dict(BASE, **env, **prof, hod_model=name, hod_params=pp))
        idx = wanted(m, tier)
        k = m.k[idx]
        hod = m.hod
        cut = pp.get("M_min") if hod.sharp_cut and (central or hod.central_condition_inherent) else None
        top = float(np.log10(m.m[-1]))
        n = float(m.mean_tracer_den)
        B, T = S.biases(k, top, hod, cut, dl)
        M, _ = S.biases(k, top)
        for spec in SPECTRA:
            m.update(hc_spectrum=spec)
            res.states += len(k)
            res.traces += 1
            key = f"{name}:{'central' if central else 'free'}:{pp.get('M_min')}:{e}:{p}:{spec}"
            pc = centre_power(m, spec)[idx]
            w = (B["auto"] / n) ** 2 * pc
            got = np.asarray(m.power_2h_auto_tracer_fnc(k))
            tol = (6e-3 * np.abs(w) + 2 * T["auto"] / np.abs(B["auto"]) * np.abs(w)) + 1e-5 * np.max(np.abs(w))
            compare(res, f"auto:{key}", "2-halo tracer power", got, w, tol)
            w = B["cross"] * M["matter"] / (n * S.rho0) * pc
            got = np.asarray(m.power_2h_cross_tracer_matter_fnc(k))
            tol = (6e-3 * np.abs(w) + T["cross"] / np.abs(B["cross"]) * np.abs(w)) + 1e-5 * np.max(np.abs(w))
            compare(res, f"cross:{key}", "2-halo cross power", got, w, tol)
            # largest scales
            b = m.bias_effective_tracer
            low = np.array([m.k[0] * 0.03, m.k[0] * 0.3, m.k[0], m.k[2]])
            plin = m.power[0] * (low / m.k[0]) ** m.n
            plin[3] = m.power[2]
            got = np.asarray(m.power_2h_auto_tracer_fnc(low))
            compare(res, f"large-auto:{key}", "large-scale tracer power vs b^2 P_lin", got, b**2 * plin, (5e-3 + 2 * T["auto"][0] / abs(B["auto"][0])) * b**2 * plin)
            bm = S.biases(low[2:3], top)[0]["matter"][0] / S.rho0
            got = np.asarray(m.power_2h_cross_tracer_matter_fnc(low[2:]))
            tol = (8e-3 + T["cross"][0] / abs(B["cross"][0])) * b * bm * plin[2:]
            compare(res, f"large-cross:{key}", "large-scale cross power vs b b_m P_lin", got, b * bm * plin[2:], tol)
    return res


def _matter(unit, tier):
    _, e, p = unit
    res = Result()
    env, prof = ENVS[e], PROFS[p]
    for mm, mx, dl in ((10.0, 15.6, 0.03), (11.2, 15.0, 0.05)):
        base = dict(BASE, Mmin=mm, Mmax=mx)
        S = spectra(base, env, prof, (e, p, mm))
        dm = {k: v for k, v in prof.items() if not k.startswith("tracer")}
        for cls, unity in itertools.product((TracerHaloModel, DMHaloModel), (True, False)):
            m = cls(**dict(base, **env, **(prof if cls is TracerHaloModel else dm), dlog10m=dl,
                           force_unity_dm_bias=unity))
            idx = wanted(m, tier)
            k = m.k[idx]
            top = float(np.log10(m.m[-1]))
            M = S.biases(k, top)[0]["matter"]
            M0 = S.biases(m.k[:1], top)[0]["matter"][0]
            beff = M / S.I.integrate(lambda mm_, x: [mm_ * S.I.bias(x)], S.lo, top)[0] if unity else (
                M / float(m.mean_density_in_halos))
            for spec in SPECTRA:
                m.update(hc_spectrum=spec)
                res.states += len(k)
                res.traces += 1
                key = f"{cls.__name__}:{e}:{p}:{mm}:{int(unity)}:{spec}"
                pc = centre_power(m, spec)[idx]
                w = beff**2 * pc
                got = np.asarray(m.power_2h_auto_matter_fnc(k))
                compare(res, f"matter:{key}", "2-halo matter power", got, w, 6e-3 * np.abs(w) + 1e-5 * np.max(np.abs(w)))
                low = np.array([m.k[0] * 0.03, m.k[0]])
                plin = m.power[0] * (low / m.k[0]) ** m.n
                b = 1.0 if unity else M0 / float(m.mean_density_in_halos)
                got = np.asarray(m.power_2h_auto_matter_fnc(low))
                tol = (2e-3 if unity else 6e-3) * b**2 * plin
                compare(res, f"large:{key}", "large-scale matter power", got, b**2 * plin, tol)
    return res


RANGES = [(None, None), (11.02, 12.03), (12.52, 15.52), (11.0, 11.0), (13.4, 13.4), (10.0, 14.02)]


def _hh(unit, tier):
    _, e = unit
    res = Result()
    m = TracerHaloModel(**dict(BASE, **ENVS[e]))
    S = spectra(BASE, ENVS[e], PROFS[0], (e, 0))
    top = float(np.log10(m.m[-1]))
    k = np.array([0.003, 0.05, 0.4])
    pk = np.asarray(m.linear_power_fnc(k))

    def b(lo, hi):
        lo = 10.0 if lo is None else lo
        hi = top if hi is None else min(hi, top)
        if lo == hi:
            return float(S.I.bias(lo))
        n, nb = S.I.integrate(lambda mm, x: [np.ones_like(mm), S.I.bias(x)], lo, hi)
        return float(nb / n)

    for r1, r2 in itertools.product(RANGES, RANGES + ["same"]):
        kw = {}
        if r1[0] is not None:
            kw.update(mmin=r1[0], mmax=r1[1])
        if r2 == "same":
            b2 = b(*r1)
        elif r2[0] is None:
            kw.update(mmin2=10.0, mmax2=15.6)
            b2 = b(None, None)
        else:
            kw.update(mmin2=r2[0], mmax2=r2[1])
            b2 = b(*r2)
        res.states += 1
        res.traces += 1
        got = np.asarray(m.power_hh(k, **kw))
        w = b(*r1) * b2 * pk
        # mass limits take effect to within one cell of the mass grid
        d = BASE["dlog10m"]
        tol = 0.02 * w
        for rr in (r1, r2 if r2 != "same" else r1):
            c = (10.0 if rr[0] is None else rr[0], top if rr[1] is None else rr[1])
            if c[0] != c[1]:
                tol = tol + w * (abs(b(c[0] + d, c[1]) / b(*c) - 1) + abs(b(c[0], c[1] - d) / b(*c) - 1))
        compare(res, f"hh:{r1}:{r2}:{e}", f"power_hh({kw})", got, w, tol)
    return res
