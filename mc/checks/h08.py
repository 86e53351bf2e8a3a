"""H08: one-halo terms are pair-weighted integrals over halo profiles."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel
from ..ref.halo import Spectra

id = "H08"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (environment x halo and tracer profile x occupation, central condition and "
    "cut-off position x turnover switch x wavenumber); in every state every one-halo spectrum of the real model is "
    "compared with an independent integral over a finely binned mass function"
)
level_note = (
    "Complete over the lattice; where pair counts jump inside the range the tolerance is the jump times 0.8 mass "
    "bins. The turnover scale is the one of the library (a tenth of pi/k), the integral above it is independent."
)
rule = "state = (environment, profiles, occupation, switch, k) ; transition = one spectrum value compared ; trace = one model"
assumptions = [
    "profiles, concentrations, occupations, bias and mass functions are correct (H12, H13, H05, H14, hmf)",
    "the mean tracer density is H07's subject and is taken from the model",
]

BASE = dict(transfer_model="EH", lnk_min=-8, lnk_max=8, dlnk=0.2, Mmin=10, Mmax=15.6, dlog10m=0.03)
ENVS = [
    dict(),
    dict(z=1.0, mdef_model="SOVirial", hmf_model="Tinker08", halo_concentration_model="Bullock01"),
    dict(z=0.4, cosmo_model="WMAP5", hmf_model="Tinker08", bias_model="SMT01", mdef_model="SOMean", mdef_params={"overdensity": 400}),
]
PROFS = [
    dict(),
    dict(halo_profile_model="Hernquist", tracer_profile_model="NFW"),
    dict(tracer_profile_model="NFW", tracer_concentration_model="Duffy08", tracer_concentration_params={"a": 4.0}),
    dict(tracer_profile_model="CoredNFW", halo_profile_params={"eta_bloat": 0.2}),
]
HODS = [
    ("Zehavi05", {}), ("Zheng05", {}), ("Contreras13", {}), ("Tinker05", {}), ("Zehavi05WithMax", {"M_max": 14.53}),
    ("Zehavi05Marked", {"logA": 0.4}), ("ContinuousPowerLaw", {}), ("Constant", {}), ("Spinelli19", {}),
    ("Leauthaud11", {}), ("Zheng05", {"M_0": 12.53, "sig_logm": 0.2}),
]
NOFLAG = ("Spinelli19", "Leauthaud11", "Tinker05", "ContinuousPowerLaw", "Constant")
FIXED = ("Spinelli19", "Leauthaud11")


def offsets(tier):
    return (0.37,) if tier == "quick" else (0.0, 0.2, 0.37, 0.7, 0.97)


def ks(model, tier):
    """Indices of the wavenumbers compared."""
    want = (0.02, 0.12, 0.5, 2.0, 9.0) if tier == "quick" else (4e-3, 0.02, 0.06, 0.12, 0.25, 0.5, 1.0, 2.0, 5.0, 9.0, 20.0)
    return np.array([int(np.argmin(np.abs(np.log(model.k / w)))) for w in want])


def bounds(tier):
    return (
        f"{len(ENVS)} environments x {len(PROFS)} profile choices x {len(HODS)} occupations (central on/off) x "
        f"M_min offsets {offsets(tier)} bins x turnover on/off x {5 if tier == 'quick' else 11} wavenumbers"
    )


def units(tier):
    return [("pt", e, p, h) for e in range(len(ENVS)) for p in range(len(PROFS)) for h in range(len(HODS))] + [
        ("matter", e, p) for e in range(len(ENVS)) for p in range(len(PROFS))
    ]


_S = {}


def spectra(base, env, prof, key):
    if key not in _S:
        if len(_S) > 12:
            _S.clear()
        _S[key] = Spectra(TracerHaloModel, dict(base, **env, **prof))
    return _S[key]


def hod_cases(h, p, tier, dl):
    for central in (False, True):
        if central and h in NOFLAG:
            continue
        pp = dict(p, central=True) if central else dict(p)
        if h in FIXED:
            yield pp, central
            continue
        for m0, o in itertools.product((12.0,) if tier == "quick" else (11.5, 12.5), offsets(tier)):
            yield dict(pp, M_min=m0 + o * dl), central


def run_unit(unit, tier):
    return globals()["_" + unit[0]](unit, tier)


def compare(res, key, what, got, want, tol):
    res.transitions += len(want)
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        i = int(np.argmax(bad))
        res.fail(key, f"{what}: {got[i]} expected {want[i]} +- {tol[i]} (index {i})")


def _pt(unit, tier):
    _, e, p, h = unit
    res = Result()
    env, prof = ENVS[e], PROFS[p]
    name, hp = HODS[h]
    S = spectra(BASE, env, prof, (e, p))
    dl = BASE["dlog10m"]
    for pp, central in hod_cases(name, hp, tier, dl):
        m = TracerHaloModel(**dict(BASE, **env, **prof, hod_model=name, hod_params=pp))
        idx = ks(m, tier)
        k = m.k[idx]
        hod = m.hod
        cut = pp.get("M_min") if hod.sharp_cut and (central or hod.central_condition_inherent) else None
        top = float(np.log10(m.m[-1]))
        for turn in (True, False):
            m.update(force_1halo_turnover=turn)
            n = float(m.mean_tracer_den)
            res.states += len(k)
            res.traces += 1
            key = f"{name}:{'central' if central else 'free'}:{pp.get('M_min')}:{e}:{p}:{int(turn)}"
            w, t = S.one_halo(k, top, hod, cut, turn, dl)
            norm = {"cs": n**2, "ss": n**2, "cross": n * S.rho0}
            got = {"cs": m.power_1h_cs_auto_tracer_fnc(k), "ss": m.power_1h_ss_auto_tracer_fnc(k),
                   "cross": m.power_1h_cross_tracer_matter_fnc(k)}
            for q in got:
                scale = np.max(np.abs(w[q])) / norm[q]
                tol = 3e-3 * np.abs(w[q]) / norm[q] + t[q] / norm[q] + 1e-5 * scale
                compare(res, f"{q}:{key}", f"1-halo {q} power", np.asarray(got[q]), w[q] / norm[q], tol)
            tot = np.asarray(m.power_1h_auto_tracer_fnc(k))
            s = np.asarray(got["cs"]) + np.asarray(got["ss"])
            compare(res, f"total:{key}", "1-halo tracer power vs cs+ss", tot, s, 1e-9 * np.abs(s) + 1e-300)
            if turn:
                first = {q: np.asarray(v) for q, v in got.items()}
            else:
                # the turnover only ever removes pairs, and nothing on small scales
                for q in ("cs", "ss"):
                    res.transitions += len(k)
                    over = first[q] - np.asarray(got[q]) > 1e-6 * np.abs(got[q]) + 1e-6 * np.max(np.abs(got[q]))
                    if np.any(over):
                        res.fail(f"turn:{q}:{key}", f"suppressed {q} power exceeds the plain one")
                    small = S.turnover(k) < S.lo
                    if not np.allclose(first[q][small], np.asarray(got[q])[small], rtol=1e-9):
                        res.fail(f"turn-small:{q}:{key}", f"suppression changes {q} power on small scales")
    return res


def _matter(unit, tier):
    _, e, p = unit
    res = Result()
    env, prof = ENVS[e], PROFS[p]
    for mm, mx, dl in ((10.0, 15.6, 0.03), (11.2, 15.0, 0.05)):
        base = dict(BASE, Mmin=mm, Mmax=mx)
        S = spectra(base, env, prof, (e, p, mm))
        for turn in (True, False):
            m = TracerHaloModel(**dict(base, **env, **prof, dlog10m=dl, force_1halo_turnover=turn))
            idx = ks(m, tier)
            k = m.k[idx]
            res.states += len(k)
            res.traces += 1
            top = float(np.log10(m.m[-1]))
            w, _ = S.one_halo(k, top, turnover=turn)
            w = w["matter"] / S.rho0**2
            got = np.asarray(m.power_1h_auto_matter_fnc(k))
            compare(res, f"matter:{e}:{p}:{mm}:{int(turn)}", "1-halo matter power", got, w,
                    3e-3 * np.abs(w) + 1e-6 * np.max(np.abs(w)))
    return res
