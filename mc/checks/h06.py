"""H06: a requested tracer density fixes the minimum mass that delivers it."""

from __future__ import annotations

import copy
import itertools

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel, halo_model
from ..ref.halo import MassIntegrals, cuts_of

id = "H06"
level = "model_checking"
technique = (
    "bounded exhaustive exploration of operation sequences (build, update, clone with and without density "
    "requests) on the real model against a reference state machine (request or released minimum mass, merged "
    "occupation parameters) and an independent density integral"
)
level_note = (
    "All operation sequences up to the stated depth from every start, read eagerly and lazily. The delivered "
    "density is checked to the mass resolution of the model (occupation step times 1.5 bins plus 0.2%)."
)
rule = (
    "state = (start, operation sequence, reading mode) ; transition = one operation applied to the real model ; "
    "trace = one history whose final model was compared with the reference"
)
assumptions = [
    "the mass function is hmf's; the density integral itself is H07's subject",
    "a request outside what the remaining occupation parameters can deliver may be rejected with NGException",
]

GRID = dict(transfer_model="EH", lnk_min=-9, lnk_max=9, dlnk=0.1, Mmin=10, Mmax=15.5, dlog10m=0.02)

STARTS = [
    dict(tracer_density=1e-2),
    dict(tracer_density=4e-3, hod_params={"central": True, "M_1": 13.3}),
    dict(tracer_density=1.2e-2, hod_model="Zheng05", hod_params={"M_1": 13.1, "M_min": 12.9}),
    dict(tracer_density=8e-3, hod_model="Tinker05", z=0.4),
    dict(hod_params={"M_min": 12.13, "alpha": 1.2}),
    dict(tracer_density=9e-3, hod_model="Contreras13", hod_params={"central": True}),
]

OPS = [
    ("update", dict(tracer_density=1.5e-2)),
    ("update", dict(tracer_density=5e-3, z=0.6)),
    ("update", dict(tracer_density=None)),
    ("update", dict(tracer_density=1.1e-2, hod_params={"M_min": 11.4})),
    ("update", dict(tracer_density=1.3e-2, hod_params={"M_1": 13.0})),
    ("update", dict(hod_params={"M_min": 12.31})),
    ("update", dict(hod_params={"M_1": 13.4})),
    ("update", dict(hod_params={"M_1": 13.2, "M_min": 12.05})),
    ("update", dict(hod_params={"central": True})),
    ("update", dict(z=1.0)),
    ("update", dict(hod_model="Zheng05")),
    ("update", dict(sigma_8=0.7, cosmo_params={"Om0": 0.35})),
    ("update", dict(Mmin=9.5, dlog10m=0.03)),
    ("update", dict(hmf_model="SMT")),
    ("update", dict(bias_model="SMT01", rmax=50)),
    ("update", dict(tracer_density=30.0)),
    ("clone", dict()),
    ("clone", dict(z=0.2)),
    ("clone", dict(tracer_density=7e-3)),
    ("clone", dict(hod_params={"M_min": 12.5})),
    ("clone", dict(hod_params={"M_1": 12.9})),
]
PARAM_MODELS = {"central", "M_1", "M_min", "alpha", "fca"}


def bounds(tier):
    return (
        f"{len(STARTS)} starts x all sequences of {len(OPS)} operations up to depth {2 if tier == 'quick' else 3} "
        "read only at the end, and (all starts in the thorough tier, two in the quick one) after every operation"
    )


def units(tier):
    return [("seq", s, o) for s in range(len(STARTS)) for o in range(len(OPS))] + [
        ("range", i) for i in range(4)
    ]


class Ref:
    """What the user has asked for."""

    def __init__(self, start):
        self.p = dict(GRID, **copy.deepcopy({k: v for k, v in start.items() if k != "tracer_density"}))
        self.want = start.get("tracer_density")
        self.p.setdefault("hod_params", {})
        self.mmin = self.p["hod_params"].get("M_min")

    def apply(self, kw):
        r = copy.deepcopy(self)
        kw = copy.deepcopy(kw)
        hp = kw.get("hod_params", {})
        if "tracer_density" in kw:
            r.want = kw.pop("tracer_density")
        elif "M_min" in hp:
            r.want = None
        for k, v in kw.items():
            r.p[k] = dict(r.p.get(k, {}), **v) if isinstance(v, dict) else v
        if "M_min" in hp:
            r.mmin = hp["M_min"]
        return r


_I = {}


def integrals(p):
    q = {k: v for k, v in p.items() if k not in ("hod_model", "hod_params", "rmax", "Mmin", "Mmax", "dlog10m", "bias_model")}
    q.setdefault("hmf_model", "Tinker10")  # the default pair; later bias changes do not alter it
    key = repr(sorted(q.items(), key=str))
    if key not in _I:
        if len(_I) > 60:
            _I.clear()
        _I[key] = MassIntegrals(TracerHaloModel(**dict(q, Mmin=9.0, Mmax=15.6, dlog10m=0.01)), step=0.005)
    return _I[key]


def density(I, hod, p, top):
    """(density, tolerance) delivered by this occupation, independently of the model."""
    central = bool(hod._central) or hod.central_condition_inherent
    f = lambda m, x: [np.asarray(hod.total_occupation(m), float)]  # noqa: E731
    cuts = cuts_of(hod)
    lo = p["Mmin"]
    d = float(I.integrate(f, lo, top, cuts)[0])
    dl = p["dlog10m"]
    jump = float(I.jumps(f, [c for c in cuts if lo < c < top], dl)[0])
    return d, 2e-3 * d + 1.5 * dl * jump, central


def check(res, key, hist, ref, m, before):
    res.traces += 1
    p = ref.p
    if m.tracer_density != ref.want:
        res.fail(f"request:{key}", f"tracer_density is {m.tracer_density}, requested {ref.want} after {hist}")
        return
    # other occupation parameters are kept
    for k, v in p["hod_params"].items():
        if k != "M_min" and m.hod_params.get(k) != v:
            res.fail(f"kept:{key}", f"hod parameter {k} is {m.hod_params.get(k)}, expected {v} after {hist}")
    if m.hod_model.__name__ != p.get("hod_model", "Zehavi05"):
        res.fail(f"model:{key}", f"occupation model {m.hod_model} after {hist}")
    I = integrals(p)
    # The occupation as the user's parameters define it, with the model's minimum mass
    hod = m.hod_model(**dict(p["hod_params"], M_min=m.hod.params["M_min"]))
    top = float(np.log10(m.m[-1]))
    d, tol, _ = density(I, hod, p, top)
    got = float(m.mean_tracer_den)
    if not abs(got - d) <= tol:
        res.fail(f"density:{key}", f"mean density {got} but the occupation at M_min={hod.params['M_min']} gives {d} after {hist}")
    if ref.want is not None:
        if not (abs(got - ref.want) <= tol and abs(d - ref.want) <= tol):
            res.fail(
                f"deliver:{key}",
                f"requested density {ref.want}, model has {got}, integral {d} (+-{tol}) after {hist}",
            )
    elif ref.mmin is not None and m.hod_params.get("M_min") != ref.mmin:
        res.fail(f"mmin:{key}", f"minimum mass {m.hod_params.get('M_min')} expected {ref.mmin} after {hist}")
    elif ref.mmin is None and before is not None and m.hod_params.get("M_min") != before:
        res.fail(f"mmin:{key}", f"releasing the request moved the minimum mass from {before} after {hist}")


def attainable(ref):
    """Can the requested density be reached with some minimum mass (None: too close to tell)."""
    p = ref.p
    I = integrals(p)
    from ..impl import hod as hodmod

    cls = hodmod.HOD._plugins[p.get("hod_model", "Zehavi05")]
    top = p["Mmax"] - p["dlog10m"]
    hi, th, _ = density(I, cls(**dict(p["hod_params"], M_min=float(p["Mmin"]))), p, top)
    lo, tl, _ = density(I, cls(**dict(p["hod_params"], M_min=top - 0.02)), p, top)
    if ref.want > hi + 2 * th or ref.want < lo - 2 * tl:
        return False
    if ref.want < hi - 2 * th and ref.want > lo + 2 * tl:
        return True
    return None


def run_history(res, start, ops, eager, label):
    ref = Ref(start)
    hist = [("new", {k: v for k, v in start.items()})]
    err = None
    m, before = None, None
    try:
        m = TracerHaloModel(**copy.deepcopy(dict(GRID, **start)))
    except halo_model.NGException:
        err = "rejected"
    for op, kw in ops:
        if err:
            break
        if eager:
            m.mean_tracer_den, m.bias_effective_tracer
        before = m.hod_params.get("M_min")
        old_want = ref.want
        ref2 = ref.apply(kw)
        hist.append((op, kw))
        res.transitions += 1
        try:
            if op == "update":
                m.update(**copy.deepcopy(kw))
            else:
                orig, snap = m, (m.tracer_density, dict(m.hod_params))
                m = m.clone(**copy.deepcopy(kw))
                if (orig.tracer_density, dict(orig.hod_params)) != snap:
                    res.fail(f"clone-alters:{label}", f"cloning altered the original after {hist}")
        except halo_model.NGException:
            err = "rejected"
        if ref2.want is None and old_want is not None and "M_min" not in kw.get("hod_params", {}):
            ref2.mmin = before  # released: the minimum mass stays where it was
        ref = ref2
    res.states += 1
    if err:
        a = attainable(ref)
        if a is True:
            res.fail(f"rejected:{label}", f"attainable density {ref.want} rejected after {hist}")
        res.count("rejected")
        return
    if ref.want is not None:
        a = attainable(ref)
        if a is False:
            res.fail(f"missed:{label}", f"unattainable density {ref.want} silently accepted after {hist}")
            return
        # cut-offs released later keep the last minimum mass
    check(res, label, hist, ref, m, before)


def run_unit(unit, tier):
    if unit[0] == "range":
        return _range(unit)
    _, s, o = unit
    res = Result()
    depth = 2 if tier == "quick" else 3
    for eager in (False, True):
        if eager and tier == "quick" and s not in (0, 3):
            continue
        for n in range(0, depth):
            for rest in itertools.product(range(len(OPS)), repeat=n):
                ids = (o,) + rest
                # an operation after a rejected one is never reached: skip its extensions
                run_history(res, STARTS[s], [OPS[i] for i in ids], eager, f"{s}:{'.'.join(map(str, ids))}:{int(eager)}")
    res.sample({"start": str(STARTS[s]), "first": str(OPS[o])})
    return res


def _range(unit):
    """The whole attainable range of densities of a start, and just outside it."""
    res = Result()
    i = unit[1]
    start = [STARTS[0], STARTS[1], STARTS[2], STARTS[3]][i]
    ref = Ref(start)
    I = integrals(ref.p)
    from ..impl import hod as hodmod

    cls = hodmod.HOD._plugins[ref.p.get("hod_model", "Zehavi05")]
    top = ref.p["Mmax"] - ref.p["dlog10m"]
    hi = density(I, cls(**dict(ref.p["hod_params"], M_min=10.0)), ref.p, top)[0]
    lo = density(I, cls(**dict(ref.p["hod_params"], M_min=15.0)), ref.p, top)[0]
    for f in (-0.3, 0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98, 1.05, 1.5):
        d = lo * (hi / lo) ** f
        run_history(res, dict(start, tracer_density=float(d)), [], True, f"range:{i}:{f}")
        run_history(res, STARTS[4], [("update", dict(
            {k: v for k, v in start.items()}, tracer_density=float(d), hod_params=dict(start.get("hod_params", {}))
        ))] if i in (1, 2) else [], True, f"range-update:{i}:{f}")
    return res
