"""H07: tracer averages are the occupation-weighted mass-function integrals."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel
from ..ref.halo import MassIntegrals, cuts_of

id = "H07"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (environment x occupation model, parameters and central condition x "
    "position of the cut-off relative to the mass bins x mass resolution and range); in every state every tracer "
    "average of the real model is compared with an independent integral over a finely binned mass function"
)
level_note = (
    "Complete over the lattice. Where an occupation jumps inside the range of integration the tolerance is the "
    "size of the jump times one mass bin, so only errors larger than the mass resolution are seen there."
)
rule = (
    "state = (environment, occupation, cut-off offset, mass grid) ; transition = one average compared ; trace = "
    "one model instance"
)
assumptions = [
    "hmf's mass function and the bias models (H14) are taken as given; occupations are H05's subject",
    "discretisation errors of at most 1e-3 (0.1 dex bins) plus 0.8 bins of any occupation jump are not defects",
]

BASE = dict(transfer_model="EH", lnk_min=-9, lnk_max=9, dlnk=0.05)
ENVS = [
    dict(),
    dict(z=1.0, hmf_model="SMT", bias_model="SMT01"),
    dict(cosmo_model="WMAP5", mdef_model="SOVirial", hmf_model="Tinker08", bias_model="Tinker10", z=0.3),
    dict(hmf_model="PS", bias_model="Mo96", sigma_8=0.7, cosmo_params={"Om0": 0.4}),
]
HODS = [
    ("Zehavi05", {}), ("Zheng05", {}), ("Contreras13", {}), ("Geach12", {}), ("Tinker05", {}),
    ("Zehavi05WithMax", {"M_max": 14.53}), ("Zehavi05WithMax", {}), ("Zehavi05Marked", {"logA": 0.7}),
    ("ContinuousPowerLaw", {}), ("Constant", {}), ("Spinelli19", {}), ("Leauthaud11", {}),
    ("Zheng05", {"M_0": 12.53, "sig_logm": 0.1}), ("Contreras13", {"fca": 0.3, "delta": 1.5}),
    ("Zehavi05", {"M_1": 12.3, "alpha": 1.4}), ("Tinker05", {"M_cut": 12.8}),
]
NOFLAG = ("Spinelli19", "Leauthaud11", "Tinker05", "ContinuousPowerLaw", "Constant")
SCALED = ("Zehavi05Marked", "ContinuousPowerLaw", "Constant")


def grids(tier):
    g = [(10.0, 15.0, 0.1), (9.0, 16.0, 0.03)]
    if tier == "thorough":
        g += [(10.0, 14.0, 0.1), (8.0, 15.0, 0.01), (11.03, 15.5, 0.07), (10.0, 15.0, 0.12)]
    return g


def offsets(tier):
    return (0.0, 0.37, 0.97) if tier == "quick" else (0.0, 0.02, 0.11, 0.25, 0.37, 0.5, 0.63, 0.75, 0.9, 0.97)


def mmins(tier):
    return (12.0, 13.0) if tier == "quick" else (11.0, 12.0, 13.0, 14.0)


def bounds(tier):
    return (
        f"{len(ENVS)} environments x {len(HODS)} occupations x central condition on/off x M_min in {mmins(tier)} + "
        f"{offsets(tier)} bins (and below the mass range) x mass grids {grids(tier)}"
    )


def units(tier):
    return [("env", e, g) for e in range(len(ENVS)) for g in range(len(grids(tier)))] + [
        ("norm", e) for e in range(len(ENVS))
    ] + [("matter", e) for e in range(len(ENVS))]


_FINE = {}


def fine(e):
    if e not in _FINE:
        _FINE[e] = MassIntegrals(TracerHaloModel(**dict(BASE, **ENVS[e], Mmin=8.0, Mmax=16.05, dlog10m=0.005)))
    return _FINE[e]


def cases(tier, dl, mlo, mhi):
    for (h, p), central in itertools.product(HODS, (False, True)):
        if central and h in NOFLAG:
            continue
        pp = dict(p)
        if central:
            pp["central"] = True
        if h in ("Spinelli19", "Leauthaud11"):
            yield h, pp, "default"
            continue
        for m0, o in itertools.product(mmins(tier), offsets(tier)):
            if m0 > mhi - 1:
                continue
            yield h, dict(pp, M_min=m0 + o * dl), (m0, o)
        yield h, dict(pp, M_min=mlo - 0.4), "below"


def expected(I, hod, lo, hi, cutoff, dl):
    """(values, tolerances) of (density, density-weighted bias, mass, satellites)."""

    def funcs(m, x):
        s = np.asarray(hod.satellite_occupation(m), float)
        t = np.asarray(hod.total_occupation(m), float)
        return [t, t * I.bias(x), t * m, s]

    cuts = cuts_of(hod)
    start = lo if cutoff is None else max(lo, cutoff)
    val = [float(v) for v in I.integrate(funcs, start, hi, cuts)]
    jumpy = [c for c in cuts if start - 1.5 * dl < c < hi + dl]

    def jfuncs(m, x):
        # at the sharp cut-off the central occupation is cut exactly, not smeared
        s = np.asarray(hod.satellite_occupation(m), float)
        t = np.asarray(hod.total_occupation(m), float)
        if cutoff is not None and abs(x[0] - cutoff) < 1e-9:
            t = s
        return [t, t * I.bias(x), t * m, s]

    j = I.jumps(jfuncs, jumpy, dl) if jumpy else [0.0] * 4
    tol = [1e-3 * max(1.0, (dl / 0.1) ** 2) * abs(v) + 0.8 * dl * float(t) for v, t in zip(val, j)]
    return val, tol


def run_unit(unit, tier):
    return globals()["_" + unit[0]](unit, tier)


def _env(unit, tier):
    _, e, gi = unit
    lo, hi, dl = grids(tier)[gi]
    I = fine(e)
    res = Result()
    model = TracerHaloModel(**dict(BASE, **ENVS[e], Mmin=lo, Mmax=hi, dlog10m=dl))
    last = None
    for h, p, pos in cases(tier, dl, lo, hi):
        m = model.clone(hod_model=h, hod_params={}) if last != h else model
        if last != h:
            model, last = m, h
        else:
            m.hod_params = {}
        m.update(hod_params=p)
        res.states += 1
        res.traces += 1
        hod = m.hod
        central = bool(p.get("central")) or hod.central_condition_inherent
        cutoff = p["M_min"] if (hod.sharp_cut and central) else None
        top = np.log10(m.m[-1])
        v, t = expected(I, hod, lo, top, cutoff, dl)
        key = f"{h}:{'central' if central else 'free'}:{p.get('M_min')}:{e}:{gi}"
        if not v[0] > 0:
            continue
        den = m.mean_tracer_den
        got = dict(
            mean_tracer_den=den, bias_effective_tracer=m.bias_effective_tracer * den,
            mass_effective=10**m.mass_effective * den, satellite_fraction=m.satellite_fraction * den,
        )
        for (q, g), w, tl in zip(got.items(), v, t):
            res.transitions += 1
            # the ratios are normalised by the model's own density: allow for its error too
            extra = 0.0 if q == "mean_tracer_den" else 1e-12 * abs(w)
            if not abs(g - w) <= tl + extra:
                res.fail(f"{q}:{key}", f"{q} integral {g} expected {w} +- {tl} ({h} {p}, grid {lo, hi, dl})")
        exact = [
            ("central_fraction", m.central_fraction + m.satellite_fraction, 1.0),
            ("mean_tracer_den_unit", m.mean_tracer_den_unit,
             den * float(m.hod.unit_conversion(m.cosmo, m.z))),
        ]
        for q, g, w in exact:
            res.transitions += 1
            if not abs(g - w) <= 1e-10 * abs(w):
                res.fail(f"{q}:{key}", f"{q}: {g} expected {w}")
        w = m.dndm * np.asarray(hod.total_occupation(m.m), float)
        if not np.allclose(m.tracer_density_m, w, rtol=1e-10, atol=0):
            res.fail(f"tracer_density_m:{key}", "tracer_density_m is not dn/dm times total occupation")
        # where the occupation itself is a sharp central cut, so is the mass mask
        res.transitions += 1
        tm = np.asarray(m._tm)
        occupied = np.asarray(hod.total_occupation(m.m), float) > 0
        if hod.mmin is not None and np.any(occupied & ~tm) and cutoff is not None:
            res.fail(f"mask:{key}", "haloes with tracers are masked out")
    res.sample({"unit": list(unit), "last": [h, str(p)], "den": float(den)})
    return res


def _norm(unit, tier):
    """Normalised averages are independent of the amplitude of the tracer."""
    _, e = unit
    res = Result()
    names = ("bias_effective_tracer", "mass_effective", "satellite_fraction", "central_fraction")
    lo, hi, dl = grids(tier)[0]
    for h in SCALED:
        base = None
        for logA in (0.0, -3.0, 2.0, 0.5):
            m = TracerHaloModel(**dict(BASE, **ENVS[e], Mmin=lo, Mmax=hi, dlog10m=dl, hod_model=h,
                                       hod_params={"logA": logA, "M_min": 12.04}))
            res.states += 1
            res.traces += 1
            got = {n: float(getattr(m, n)) for n in names}
            d = float(m.mean_tracer_den)
            if base is None:
                base = (got, d)
                continue
            for n in names:
                res.transitions += 1
                if not abs(got[n] - base[0][n]) <= 1e-9 * max(1, abs(base[0][n])):
                    res.fail(f"norm:{n}:{h}:{e}", f"{n} depends on the amplitude: {base[0][n]} -> {got[n]}")
            res.transitions += 1
            if not abs(d / base[1] / 10**logA - 1) < 1e-9:
                res.fail(f"norm:den:{h}:{e}", f"density does not scale with the amplitude {logA}: {d / base[1]}")
    return res


def _matter(unit, tier):
    """Matter averages: normalised to the density in haloes, or unity when enforced."""
    _, e = unit
    res = Result()
    I = fine(e)
    for lo, hi, dl in grids(tier):
        for unity in (True, False):
            m = TracerHaloModel(**dict(BASE, **ENVS[e], Mmin=lo, Mmax=hi, dlog10m=dl, force_unity_dm_bias=unity))
            res.states += 1
            res.traces += 1
            top = np.log10(m.m[-1])
            if unity:
                res.transitions += 1
                if m.bias_effective_matter != 1.0:
                    res.fail(f"matter:unity:{e}", f"enforced matter bias is {m.bias_effective_matter}")
                continue
            n, nb = I.integrate(lambda mm, x: [mm, mm * I.bias(x)], lo, min(top, 16.0))
            res.transitions += 2
            # the density in haloes extends the mass function beyond Mmax
            rel = m.mean_density_in_halos / n
            if not -1e-3 < rel - 1 < (0.25 if hi < 15 else 0.05):
                res.fail(f"matter:density:{e}:{lo}:{hi}", f"density in haloes {m.mean_density_in_halos} vs {float(n)}")
            w = nb / m.mean_density_in_halos
            tol = 1e-3 + 2 * dl * I.dndm(top) * 10 ** (2 * top) / n
            if not abs(m.bias_effective_matter / w - 1) < tol:
                res.fail(f"matter:bias:{e}:{lo}:{hi}", f"matter bias {m.bias_effective_matter} expected {float(w)}")
    return res
