"""H03: models never influence each other, their caller's data or shared state."""

from __future__ import annotations

import copy
import itertools
import sys
import warnings

import numpy as np

from ..core import Result, isolated
from ..impl import DMHaloModel, TracerHaloModel, canon, read, same

id = "H03"
level = "model_checking"
technique = (
    "exhaustive interleaving of build/read/update/clone events of two live models (each schedule "
    "executed in its own pristine process) against the same events run alone; exhaustive aliasing "
    "schedules on caller-owned arguments"
)
level_note = (
    "All interleavings of the two event sequences for all pairs of a configuration list; shared "
    "state is also snapshotted around every run. Interference needing three models or events "
    "outside the alphabet is not covered; parameters implemented by hmf are not probed for aliasing."
)
rule = (
    "state = (events executed so far by each of two models, in order) ; transition = one event on the "
    "real objects; trace = one complete schedule in its own process compared with the solo runs"
)
assumptions = [
    "a forked child of the freshly imported package is a pristine process",
    "colossus' on-disk cache is switched off",
]

TINY = dict(
    transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-6, lnk_max=5, dlnk=0.5,
    rnum=4, rmin=0.1, rmax=40, dr_table=0.4, hmf_model="Tinker08",
)


def _t(**kw):
    return dict(TINY, **kw)


def _dm():
    d = dict(TINY)
    return d


def configs():
    """name -> (builder, update event, quantities); builders run inside the child only."""
    from halomod import cross_correlations as cc
    from halomod import integrate_corr as ic
    from halomod import wdm
    from halomod.bias import make_colossus_bias
    from halomod.concentration import make_colossus_cm

    T, D = TracerHaloModel, DMHaloModel
    q = ["halo_bias", "cmz_relation", "halo_profile_ukm", "dndm", "growth_factor",
         "power_auto_matter", "halo_overdensity_mean"]
    tq = q + ["tracer_cmz_relation", "tracer_profile_ukm", "mean_tracer_den",
              "bias_effective_tracer", "power_auto_tracer", "corr_auto_tracer"]
    out = {}
    out["default"] = (lambda: T(**_t()), dict(z=0.5), tq)
    out["wmap5"] = (lambda: T(**_t(cosmo_model="WMAP5", halo_concentration_model="Duffy08")),
                    dict(cosmo_params={"Om0": 0.22}), tq)
    out["col_cm"] = (lambda: D(**dict(_dm(), halo_concentration_model=make_colossus_cm("diemer15"),
                                       mdef_model="SOCritical", hmf_model="Tinker08")),
                     dict(z=0.5), q)
    out["col_cm_lowom"] = (lambda: D(**dict(_dm(), halo_concentration_model=make_colossus_cm("diemer19"),
                                             cosmo_params={"Om0": 0.2, "H0": 60.0}, sigma_8=0.6,
                                             mdef_model="SOCritical")),
                           dict(sigma_8=0.9), q)
    out["col_bias"] = (lambda: T(**_t(bias_model=make_colossus_bias("comparat17"))), dict(sigma_8=0.7),
                       tq)
    out["col_bias_wmap"] = (lambda: T(**_t(bias_model=make_colossus_bias("tinker10"),
                                           cosmo_model="WMAP5")), dict(n=0.9), tq)
    out["wdm"] = (lambda: wdm.HaloModelWDM(**dict(_dm(), wdm_mass=1.0,
                                                 halo_concentration_model="Bullock01WDM")),
                  dict(wdm_mass=3.0), q + ["wdm"])
    out["wdm_tracer"] = (lambda: wdm.TracerHaloModelWDM(
        **_t(halo_concentration_model="Duffy08WDM", alter_model="Lovell14")),
        dict(halo_concentration_params={"g1": 20.0}), tq)
    out["bullock"] = (lambda: T(**_t(halo_concentration_model="Bullock01")),
                      dict(halo_concentration_params={"F": 0.02}), tq)
    out["duffy_relaxed"] = (lambda: T(**_t(halo_concentration_model="Duffy08",
                                           halo_concentration_params={"sample": "full"})),
                            dict(halo_concentration_params={"a": 8.0}), tq)
    out["gnfw"] = (lambda: T(**_t(tracer_profile_model="GeneralizedNFW",
                                  tracer_profile_params={"alpha": 0.7},
                                  tracer_concentration_model="Duffy08")),
                   dict(tracer_profile_params={"alpha": 1.2}), tq)
    out["hod_density"] = (lambda: T(**_t(tracer_density=3e-3, hod_params={"central": True})),
                          dict(tracer_density=5e-3), tq)
    out["leauthaud"] = (lambda: T(**_t(hod_model="Leauthaud11")), dict(hod_params={"sm_thresh": 9.5}),
                        tq)
    out["pbsplit"] = (lambda: T(**_t(bias_model="Tinker10PBSplit", sd_bias_model="TinkerSD05",
                                     exclusion_model="Sphere")), dict(hc_spectrum="nonlinear"), tq)
    out["projected"] = (lambda: ic.ProjectedCF(rp_num=3, rp_min=0.5, rp_max=10.0,
                                               **{k: v for k, v in TINY.items() if k != "rnum"},
                                               rnum=6),
                        dict(rp_max=15.0), ["projected_corr_gal", "rp", "mean_tracer_den"])
    out["cross"] = (lambda: cc.CrossCorrelations(
        cross_hod_model="ConstantCorr", halo_model_1_params=_t(),
        halo_model_2_params=_t(hod_params={"M_min": 12.0})),
        dict(halo_model_2_params={"hod_params": {"alpha": 1.2}}),
        ["power_cross", "corr_cross", "power_1h_cross"])
    return out


NAMES = ["default", "wmap5", "col_cm", "col_cm_lowom", "col_bias", "col_bias_wmap", "wdm",
         "wdm_tracer", "bullock", "duffy_relaxed", "gnfw", "hod_density", "leauthaud", "pbsplit",
         "projected", "cross"]
#: shared-state users are explored with the longer event sequences
DEEP = ["default", "col_cm", "col_cm_lowom", "col_bias", "col_bias_wmap", "wdm", "wdm_tracer",
        "bullock", "duffy_relaxed"]

SEQ_SHORT = ("build", "read")
SEQ = ("build", "read", "update", "read")
SEQ_LAZY = ("build", "update", "read")
SEQ_CLONE = ("build", "clone-update-read", "read")


def interleavings(a, b):
    """All merges of two event sequences."""
    n = len(a) + len(b)
    for pos in itertools.combinations(range(n), len(a)):
        ps = set(pos)
        ia, ib = iter(a), iter(b)
        yield [(0, next(ia)) if i in ps else (1, next(ib)) for i in range(n)]


def execute(names, schedule):
    """Run a schedule on real models; returns the readings of each model in its own order."""
    warnings.simplefilter("ignore")
    cfg = configs()
    objs = {}
    reads = {0: [], 1: []}
    for who, ev in schedule:
        build, upd, qs = cfg[names[who]]
        if ev == "build":
            objs[who] = build()
        elif ev == "read":
            reads[who].append({q: read(objs[who], q) for q in qs})
        elif ev == "update":
            objs[who].update(**copy.deepcopy(upd))
        elif ev == "clone-update-read":
            c = objs[who].clone()
            c.update(**copy.deepcopy(upd))
            reads[who].append({q: read(c, q) for q in qs})
    return reads


def snapshot():
    """Everything process-wide that a model could corrupt."""
    from hmf._internals._framework import get_base_components

    out = {}
    for base in get_base_components():
        if not hasattr(base, "_plugins"):
            continue
        # (classes made by the user's own call of a colossus factory are not looked at)
        plugins = {n: c for n, c in base._plugins.items() if "<locals>" not in c.__qualname__
                   and not n.startswith("CustomColossus")}
        out[f"registry:{base.__name__}"] = sorted(plugins)
        for n, c in plugins.items():
            out[f"defaults:{base.__name__}.{n}"] = canon(copy.deepcopy(c._defaults))
            out[f"native:{n}"] = repr(getattr(c, "native_mdefs", None))
            for attr in ("pair_hmf", "sharp_cut", "central_condition_inherent", "_mdef", "sample"):
                if hasattr(c, attr):
                    out[f"{attr}:{n}"] = repr(getattr(c, attr))
    for mn, mod in sorted(sys.modules.items()):
        if not mn.startswith("halomod"):
            continue
        for fn, f in sorted(vars(mod).items()):
            if isinstance(f, (dict, list, set, np.ndarray)) and not fn.startswith("__"):
                out[f"global:{mn}.{fn}"] = repr(f)
            if getattr(f, "__defaults__", None) and getattr(f, "__module__", "") == mn:
                out[f"args:{mn}.{fn}"] = repr(
                    [d for d in f.__defaults__ if isinstance(d, (dict, list, tuple, int, float, str))])
    out["errstate"] = repr(sorted(np.geterr().items()))
    return out


# ---------------------------------------------------------------- caller-owned arguments
ALIAS = [
    ("hod_params", dict(M_min=12.0), dict(alpha=1.2), "mean_tracer_den"),
    ("hod_params", {"central": True}, dict(M_1=13.2), "mean_tracer_den"),
    ("bias_params", dict(B=0.2), dict(b=1.6), "halo_bias"),
    ("halo_profile_params", dict(eta_bloat=0.3), dict(eta_bloat=0.5), "halo_profile_ukm"),
    ("halo_concentration_params", dict(a=8.0), dict(b=-0.1), "cmz_relation"),
    ("sd_bias_params", dict(a=1.3), dict(b=1.2), "sd_bias_correction"),
    ("colossus_params", {"flat": True}, {"relspecies": False}, "mean_tracer_den"),
    ("tracer_profile_params", dict(alpha=0.7), dict(alpha=1.3), "tracer_profile_ukm"),
    ("tracer_concentration_params", dict(a=8.0), dict(b=-0.1), "tracer_cmz_relation"),
    ("rmin", [1.0, 3.0, 9.0], [2.0, 4.0, 8.0], "r"),
    ("rmin", np.array([1.0, 3.0, 9.0]), np.array([2.0, 4.0, 8.0]), "r"),
]
ALIAS_BASE = _t(halo_concentration_model="Duffy08", tracer_concentration_model="Duffy08",
                tracer_profile_model="GeneralizedNFW", sd_bias_model="TinkerSD05")
#: events of the caller's argument object d and of the model(s)
A_EVENTS = ["mutate", "read", "update-d", "update-other", "clone-update", "second-model"]


def alias_run(case, seq, how):
    """Returns (what the caller sees, what the model reports) with deep copies as oracle."""
    pname, v1, v2, q = case
    d = copy.deepcopy(v1)
    expect_d = copy.deepcopy(v1)
    ALIAS_BASE = {k: v for k, v in globals()["ALIAS_BASE"].items() if k != pname}
    if how == "construct":
        m = TracerHaloModel(**ALIAS_BASE, **{pname: d})
    else:
        m = TracerHaloModel(**ALIAS_BASE)
        m.update(**{pname: d})
    spec = copy.deepcopy(v1)
    others = []
    mutated = 0

    def merged(spec, v):
        return dict(spec, **v) if isinstance(v, dict) else copy.deepcopy(v)

    for ev in seq:
        if ev == "mutate":
            # the caller goes on using the object for something else
            mutated += 1
            if isinstance(d, dict):
                key = sorted(v2)[0]
                val = [9.9, 7.7, 5.5][min(mutated, 2)]
                d[key] = val
                expect_d[key] = val
            else:
                d[0] = 1.5 + 0.1 * mutated
                expect_d[0] = 1.5 + 0.1 * mutated
        elif ev == "read":
            read(m, q)
        elif ev == "update-d":
            d2 = copy.deepcopy(v2)
            m.update(**{pname: d2})
            spec = merged(spec, v2)
            if not same(canon(d2), canon(v2)):
                return f"update changed its argument to {d2}"
        elif ev == "update-other":
            m.update(z=0.2)
            others.append(("z", 0.2))
        elif ev == "clone-update":
            c = m.clone()
            c.update(**{pname: copy.deepcopy(v2)})
            read(c, q)
        elif ev == "second-model":
            m2 = TracerHaloModel(**ALIAS_BASE, **{pname: d})
            m2.update(**{pname: copy.deepcopy(v2)})
            read(m2, q)
    if not same(canon(d), canon(expect_d)):
        return f"the caller's {pname} became {d}, expected {expect_d}"
    got = canon(getattr(m, pname))
    if not same(got, canon(spec)):
        return f"the model's {pname} became {got}, expected {spec}"
    ref = TracerHaloModel(**ALIAS_BASE, **{pname: copy.deepcopy(spec)}, **dict(others))
    a, b = read(m, q), read(ref, q)
    if not same(a, b):
        return f"{q} differs from a fresh model with the arguments as passed: {str(a)[:80]} {str(b)[:80]}"
    return None


def cross_alias(seq):
    from halomod.cross_correlations import CrossCorrelations

    p1, p2, pc = _t(), _t(hod_params={"M_min": 12.0}), {"R_ss": 0.2}
    keep = copy.deepcopy((p1, p2, pc))
    m = CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=pc,
                          halo_model_1_params=p1, halo_model_2_params=p2)
    for ev in seq:
        if ev == "mutate":
            p1["z"] = 1.0
            p2["hod_params"]["alpha"] = 3.0
            pc["R_ss"] = 0.9
            keep[0]["z"] = 1.0
            keep[1]["hod_params"]["alpha"] = 3.0
            keep[2]["R_ss"] = 0.9
        elif ev == "read":
            read(m, "power_cross")
        elif ev == "update-other":
            m.update(cross_hod_params={"R_cs": 0.1})
            m.update(cross_hod_params={"R_cs": 0.0})
        elif ev == "clone-update":
            c = m.clone()
            c.update(halo_model_2_params={"hod_params": {"alpha": 1.4}}, cross_hod_params={"R_ss": 0.4})
            read(c, "power_cross")
    if not same(canon((p1, p2, pc)), canon(keep)):
        return f"arguments changed to {(p1, p2, pc)}"
    ref = CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params={"R_ss": 0.2},
                            halo_model_1_params=_t(), halo_model_2_params=_t(hod_params={"M_min": 12.0}))
    if not same(read(m, "power_cross"), read(ref, "power_cross")):
        return "power_cross differs from a fresh composite with the arguments as passed"
    return None


# ---------------------------------------------------------------- components on their own
def component_cases():
    from halomod import bias, concentration, hod, profiles

    m = np.logspace(10, 15, 6)
    out = {}
    for n, c in concentration.CMRelation._plugins.items():
        if n not in ("Bullock01", "Maccio07", "Bullock01Power", "Ludlow16", "Ludlow2016"):
            out[f"cm:{n}"] = (lambda kw, c=c: c(**kw), lambda o: o.cm(m, 0.3), c._defaults)
    cm = concentration.Duffy08

    def prof(c):
        return lambda kw: c(cm_relation=cm(), **kw)

    for n, c in profiles.Profile._plugins.items():
        if n not in ("Einasto", "MooreInf", "GeneralizedNFWInf", "Moore"):
            out[f"profile:{n}"] = (prof(c), lambda o: o.rho(np.array([0.05, 0.2]), m), c._defaults)
    for n, c in hod.HOD._plugins.items():
        if n == "Spinelli19":
            continue
        out[f"hod:{n}"] = (lambda kw, c=c: c(**kw), lambda o: o.total_occupation(m), c._defaults)
    nu = np.linspace(0.5, 12, 6)
    for n, c in bias.Bias._plugins.items():
        out[f"bias:{n}"] = (
            lambda kw, c=c: c(nu=nu.copy(), m=m.copy(), mstar=1e13, delta_halo=200, n_eff=-1.5 + 0 * nu, **kw),
            lambda o: o.bias(), c._defaults)
    return out


def component_run(name):
    build, evaluate, defaults = component_cases()[name]
    d0 = canon(copy.deepcopy(defaults))
    bad = []
    keys = [k for k, v in defaults.items() if isinstance(v, (int, float)) and not isinstance(v, bool)][:6]
    a = build({})
    va = canon(np.array(evaluate(a)))
    for k in keys or [None]:
        kw = {k: defaults[k] * 1.01 + 0.001} if k else {}
        b = build(kw)
        vb = canon(np.array(evaluate(b)))
        if not same(canon(np.array(evaluate(a))), va):
            bad.append(f"building and evaluating another instance with {kw} changed this one")
        if not same(canon(np.array(evaluate(b))), vb):
            bad.append(f"evaluating twice with {kw} gives different values")
        if k:
            b.params[k] = b.params[k] + 1
        if not same(canon(np.array(evaluate(a))), va):
            bad.append(f"changing {k} of another instance changed this one")
        c = build({})
        if not same(canon(np.array(evaluate(c))), va):
            bad.append(f"a new instance differs after {kw}")
        if not same(canon(defaults), d0):
            bad.append(f"class defaults changed after {kw}: {defaults}")
            break
    return len(keys) * 3 + 1, bad


def bounds(tier):
    return (
        f"all ordered pairs of {len(NAMES)} configurations (different cosmologies, colossus-, WDM- and "
        "composite models) x all interleavings of (build, read)x(build, update, read); all interleavings "
        f"of (build, read, update, read) twice for pairs from {len(DEEP)} shared-state users"
        + (" (quick: with the first model's sequence against build-read and build-clone-read)" if tier == "quick" else
           " and of all pairs")
        + f"; {len(ALIAS)} argument objects x all event sequences of length <= {2 if tier == 'quick' else 3}"
    )


def units(tier):
    u = []
    for a in NAMES:
        for b in NAMES:
            u.append(("inter", a, b))
    for i in range(len(ALIAS)):
        u.append(("alias", i))
    u.append(("crossalias",))
    u.append(("components",))
    return u


_SOLO = {}


def solo(name, seq):
    k = (name, seq)
    if k not in _SOLO:
        st, out = isolated(lambda: execute((name, None), [(0, e) for e in seq]))
        _SOLO[k] = (st, out[0] if st == "ok" else out)
    return _SOLO[k]


def schedules(a, b, tier):
    for s in interleavings(SEQ_SHORT, SEQ_LAZY):
        yield SEQ_SHORT, SEQ_LAZY, s
    if a in DEEP and b in DEEP or tier == "thorough":
        if tier == "thorough":
            for s in interleavings(SEQ, SEQ):
                yield SEQ, SEQ, s
            for s in interleavings(SEQ_CLONE, SEQ):
                yield SEQ_CLONE, SEQ, s
        else:
            for s in interleavings(SEQ_SHORT, SEQ_CLONE):
                if a != b:
                    yield SEQ_SHORT, SEQ_CLONE, s


def run_inter(unit, tier, res):
    _, a, b = unit

    def one(sched):
        configs()  # classes the user makes (colossus factories) are not interference
        before = snapshot()
        out = execute((a, b), sched)
        after = snapshot()
        diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)
                      and not same(before.get(k), after.get(k)))
        return out, diff

    for sa, sb, sched in schedules(a, b, tier):
        ra, rb = solo(a, sa), solo(b, sb)
        st, got = isolated(lambda: one(sched))
        res.states += len(sched)
        res.transitions += len(sched)
        res.traces += 1
        if ra[0] != "ok" or rb[0] != "ok":
            for nm, r in ((a, ra), (b, rb)):
                if r[0] != "ok":
                    res.fail(f"solo:{nm}", f"configuration cannot be run alone: {r[1]}"[:500])
            return
        if st != "ok":
            res.fail(f"raises:{a}|{b}", f"{sched} raised {got} although each model alone works",
                     schedule=sched)
            continue
        reads, diff = got
        for d in diff:
            res.fail(f"shared:{d}", f"running {a}, {b} changed shared state {d}", schedule=sched)
        for who, name, ref in ((0, a, ra[1]), (1, b, rb[1])):
            for i, (r, w) in enumerate(zip(reads[who], ref)):
                bad = [q for q in w if not same(r[q], w[q])]
                if bad:
                    res.fail(
                        f"interference:{name}<-{b if who == 0 else a}",
                        f"{bad} of '{name}' depend on another model's events: {sched}",
                        schedule=sched, read=i)
    res.sample({"pair": [a, b], "schedules": "all interleavings"})


def run_alias(unit, tier, res):
    case = ALIAS[unit[1]]
    n = 2 if tier == "quick" else 3
    for how in ("construct", "update"):
        for k in range(0, n + 1):
            for seq in itertools.product(A_EVENTS, repeat=k):
                st, out = isolated(lambda: alias_run(case, seq, how))
                res.states += 1
                res.transitions += k
                res.traces += 1
                if st != "ok":
                    res.fail(f"alias-raises:{case[0]}", f"{how} {seq} raised {out}")
                elif out:
                    res.fail(f"alias:{case[0]}", f"after {how} {seq}: {out}", seq=seq)
    res.sample({"argument": case[0], "events": "all sequences"})


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    if unit[0] == "inter":
        run_inter(unit, tier, res)
    elif unit[0] == "alias":
        run_alias(unit, tier, res)
    elif unit[0] == "crossalias":
        for k in range(0, 4):
            for seq in itertools.product(["mutate", "read", "update-other", "clone-update"], repeat=k):
                st, out = isolated(lambda: cross_alias(seq))
                res.states += 1
                res.transitions += k
                res.traces += 1
                if st != "ok" or out:
                    res.fail("alias:cross", f"after {seq}: {out}", seq=seq)
    else:
        names = isolated(lambda: sorted(component_cases()))[1]
        for n in names:
            st, out = isolated(lambda: component_run(n))
            res.states += 1
            if st != "ok":
                res.fail(f"component-raises:{n}", out)
                continue
            res.transitions += out[0]
            res.traces += 1
            for b in out[1]:
                res.fail(f"component:{n}", b)
    return res
