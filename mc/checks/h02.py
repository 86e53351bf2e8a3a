"""H02: derived and composite models after any bounded history equal fresh ones."""

from __future__ import annotations

import functools
import warnings

from halomod import cross_correlations as cc
from halomod import integrate_corr as ic
from halomod import wdm

from ..core import Result
from ..histories import Fresh, Spec, compare, op_key, thaw
from ..impl import TracerHaloModel, canon, quantities, read, same

id = "H02"
level = "model_checking"
technique = (
    "stateless exhaustive exploration of read/update/clone histories of the composite models, "
    "through the composite and through its parts, against freshly built composites"
)
level_note = (
    "Every history within the bounds runs on the real objects and every quantity is compared with a "
    "newly built composite; parameter values outside the alphabet and longer histories are not covered."
)
rule = (
    "state = (parameters of the composite and of its parts, what has been read) reached by one "
    "history; transition = one update (through the composite, through a part, by assignment or by "
    "clone); trace = one comparison of the quantities with a freshly built composite"
)
assumptions = ["hmf computes the same values for the same parameters in a fresh object"]

TINY = dict(
    transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-6, lnk_max=5, dlnk=0.5,
    rnum=4, rmin=0.1, rmax=40, dr_table=0.4, hmf_model="Tinker08",
    hod_params={"central": True},
)
DM = {k: v for k, v in TINY.items() if k not in ("hod_params",)}


def pz(z):
    return 1.0 + z


def pz2(z):
    return 3.0 - 2 * z


SHARED = [
    dict(z=0.35), dict(sigma_8=0.7), dict(hod_params={"M_min": 12.0}), dict(hod_model="Zheng05"),
    dict(bias_model="ST99"), dict(halo_profile_model="Hernquist"),
    dict(tracer_profile_model="CoredNFW"), dict(tracer_concentration_model="Duffy08"),
    dict(exclusion_model="Sphere"), dict(hc_spectrum="nonlinear"), dict(cosmo_params={"Om0": 0.25}),
    dict(Mmin=10.5), dict(dlnk=0.4), dict(tracer_density=5e-3), dict(force_1halo_turnover=False),
    dict(hmf_model="SMT"), dict(mdef_model="SOVirial"), dict(sd_bias_model="TinkerSD05"),
]

SYS = {
    "ProjectedCF": dict(
        cls=ic.ProjectedCF,
        base=dict({k: v for k, v in TINY.items() if k != "rnum"}, rp_num=3, rp_min=0.5, rp_max=20.0,
                  rnum=6),
        own=[dict(rp_min=0.7), dict(rp_min=[0.6, 2.0]), dict(rp_max=10.0), dict(rp_num=4),
             dict(rp_log=False), dict(proj_limit=60.0), dict(proj_limit=150.0), dict(rnum=8)],
        qs=["rp", "rlim", "r", "projected_corr_gal", "corr_auto_tracer", "power_auto_tracer", "k_hm",
            "mean_tracer_den", "bias_effective_tracer", "corr_2h_auto_tracer"],
    ),
    "AngularCF": dict(
        cls=ic.AngularCF,
        base=dict(TINY, z=0.3, theta_num=2, znum=4, unum=5, zmin=0.2, zmax=0.4, p1=pz,
                  theta_min=1e-3, theta_max=1e-2),
        own=[dict(p1=pz2), dict(p2=pz2), dict(p_of_z=False), dict(theta_min=2e-3),
             dict(theta_max=2e-2), dict(theta_num=3), dict(theta_log=False), dict(zmin=0.25),
             dict(zmax=0.35), dict(znum=5), dict(logu_min=-3), dict(logu_max=2.0), dict(unum=6),
             dict(check_p_norm=False)],
        qs=["theta", "zvec", "uvec", "xvec", "r", "angular_corr_gal", "angular_corr_matter",
            "corr_auto_tracer", "corr_auto_matter", "mean_tracer_den"],
    ),
    "HaloModelWDM": dict(
        cls=wdm.HaloModelWDM,
        base=dict(DM, wdm_mass=3.0, halo_concentration_model="Bullock01WDM"),
        own=[dict(wdm_mass=1.0), dict(wdm_model="Bode01"), dict(wdm_params={"mu": 1.2}),
             dict(alter_model="Schneider12_vCDM"), dict(alter_model="Lovell14"),
             dict(alter_params={"beta": 0.8}), dict(halo_concentration_model="Duffy08WDM"),
             dict(halo_concentration_model="Duffy08"),
             dict(halo_concentration_params={"g1": 30.0}),
             dict(halo_concentration_params={"a": 8.0})],
        qs=None,
    ),
    "TracerHaloModelWDM": dict(
        cls=wdm.TracerHaloModelWDM,
        base=dict(TINY, wdm_mass=3.0, halo_concentration_model="Bullock01WDM"),
        own=[dict(wdm_mass=1.0), dict(wdm_params={"mu": 1.2}), dict(alter_model="Schneider12_vCDM"),
             dict(alter_model="Lovell14"), dict(halo_concentration_model="Duffy08WDM"),
             dict(halo_concentration_model="Duffy08"),
             dict(tracer_concentration_params={"a": 8.0})],
        qs=None,
    ),
    "ProjectedCFWDM": dict(
        cls=wdm.ProjectedCFWDM,
        base=dict({k: v for k, v in TINY.items() if k != "rnum"}, rp_num=3, rp_min=0.5, rp_max=20.0,
                  rnum=6, wdm_mass=3.0, halo_concentration_model="Bullock01WDM"),
        own=[dict(wdm_mass=1.0), dict(rp_min=0.7), dict(alter_model="Lovell14"), dict(proj_limit=60.0),
             dict(halo_concentration_model="Duffy08WDM")],
        qs=["rp", "rlim", "r", "projected_corr_gal", "corr_auto_tracer", "wdm", "dndm",
            "cmz_relation", "mean_tracer_den", "power_auto_matter"],
    ),
}
#: the same models starting with their optional switches on, and the operations that turn them off again
for _n, _on in {
    "ProjectedCF": dict(proj_limit=100.0, rp_log=False),
    "AngularCF": dict(p2=pz2, p_of_z=False, check_p_norm=False, theta_log=False),
    "HaloModelWDM": dict(alter_model="Schneider12_vCDM", wdm_params={"mu": 1.2}),
    "TracerHaloModelWDM": dict(alter_model="Schneider12_vCDM", wdm_params={"mu": 1.2},
                               tracer_profile_model="CoredNFW"),
    "ProjectedCFWDM": dict(alter_model="Schneider12_vCDM", proj_limit=100.0),
}.items():
    _off = {"proj_limit": None, "rp_log": True, "p2": None, "p_of_z": True, "check_p_norm": True,
            "theta_log": True, "alter_model": None, "wdm_params": {}, "tracer_profile_model": None,
            "tracer_density": None}
    SYS[_n + "+on"] = dict(
        SYS[_n], base=dict(SYS[_n]["base"], **_on), first=len(_on),
        own=[{k: _off[k]} for k in _on] + [o for o in SYS[_n]["own"] if set(o) - set(_on)],
    )
_F = {}


@functools.lru_cache(None)
def qs_of(name):
    s = SYS[name]
    return s["qs"] or [q for q in quantities(s["cls"]) if q != "_growth_factor_fn"]


def fresh(name):
    if name not in _F:
        _F[name] = Fresh(SYS[name]["cls"], qs_of(name), read)
    return _F[name]


@functools.lru_cache(None)
def alphabet(name):
    s = SYS[name]
    ops = list(s["own"])
    names = set(s["cls"].get_all_parameter_names())
    for o in SHARED:
        if set(o) <= names:
            ops.append(o)
    return ops


# ------------------------------------------------------------------ cross-correlations
CROSS_QS = ["power_1h_cross", "power_2h_cross", "power_cross", "corr_1h_cross", "corr_2h_cross",
            "corr_cross", "power_1h_cross_fnc", "power_2h_cross_fnc", "corr_1h_cross_fnc",
            "corr_2h_cross_fnc"]
CROSS_BASE = dict(
    cross_hod_model="ConstantCorr", cross_hod_params={},
    halo_model_1_params=dict(TINY), halo_model_2_params=dict(TINY, hod_params={"central": True, "M_min": 11.5}),
)
SUB_OPS = [
    dict(hod_params={"M_min": 12.0}), dict(hod_params={"alpha": 1.3}), dict(hod_model="Zheng05"),
    dict(z=0.4), dict(sigma_8=0.7), dict(bias_model="ST99"), dict(tracer_profile_model="CoredNFW"),
    dict(tracer_concentration_model="Duffy08"), dict(hc_spectrum="nonlinear"),
    dict(exclusion_model="Sphere"), dict(force_1halo_turnover=False), dict(tracer_density=5e-3),
    dict(halo_profile_model="Hernquist"), dict(sd_bias_model="TinkerSD05"), dict(rmin=0.2), dict(rnum=5),
    dict(rmin=[1.0, 3.0]), dict(hm_logk_max=1.0), dict(hmf_model="SMT"), dict(mdef_model="SOVirial"),
    dict(cosmo_params={"Om0": 0.25}), dict(takahashi=False), dict(dr_table=0.3), dict(transfer_model="BBKS"),
]
CROSS_OPS = (
    [("cross", dict(cross_hod_params={"R_ss": 0.5})), ("cross", dict(cross_hod_params={"R_cs": 0.4})),
     ("cross", dict(cross_hod_params={}))]
    + [(w, o) for o in SUB_OPS for w in ("1", "2")]
)
#: these change the mass or wavenumber grids and therefore have to be applied to both parts
BOTH_OPS = [dict(Mmin=10.5), dict(dlnk=0.4), dict(lnk_min=-5), dict(dlog10m=0.4)]


def cross_read(c, q):
    return read(c, q)


class CrossSpec:
    def __init__(self, c=None, s1=None, s2=None):
        self.c = c or {"cross_hod_model": "ConstantCorr", "cross_hod_params": {}}
        self.s1 = s1 or Spec(CROSS_BASE["halo_model_1_params"])
        self.s2 = s2 or Spec(CROSS_BASE["halo_model_2_params"])

    def apply(self, where, op):
        if where == "1":
            return CrossSpec(self.c, self.s1.apply(op), self.s2)
        if where == "2":
            return CrossSpec(self.c, self.s1, self.s2.apply(op))
        if where == "both":
            return CrossSpec(self.c, self.s1.apply(op), self.s2.apply(op))
        return CrossSpec(Spec(self.c).apply(op).p, self.s1, self.s2)

    def build(self):
        return cc.CrossCorrelations(**thaw(self.c), halo_model_1_params=thaw(self.s1.p),
                                    halo_model_2_params=thaw(self.s2.p))

    def key(self):
        return op_key(self.c) + self.s1.key() + self.s2.key()


_C = {}


def cross_fresh(spec):
    k = spec.key()
    if k not in _C:
        if len(_C) > 300:
            _C.clear()
        c = spec.build()
        _C[k] = {q: cross_read(c, q) for q in CROSS_QS}
    return _C[k]


def cross_apply(c, where, op, route):
    if route == "composite":
        if where in ("1", "both"):
            c.update(halo_model_1_params=thaw(op))
        if where in ("2", "both"):
            c.update(halo_model_2_params=thaw(op))
        if where == "cross":
            c.update(**thaw(op))
    elif route == "clone":
        kw = {}
        if where in ("1", "both"):
            kw["halo_model_1_params"] = thaw(op)
        if where in ("2", "both"):
            kw["halo_model_2_params"] = thaw(op)
        if where == "cross":
            kw = thaw(op)
        c = c.clone(**kw)
    else:
        if where in ("1", "both"):
            c.halo_model_1.update(**thaw(op))
        if where in ("2", "both"):
            c.halo_model_2.update(**thaw(op))
        if where == "cross":
            for k, v in thaw(op).items():
                setattr(c, k, v)
    return c


#: orders in which the quantities are first read (which quantity is cached under which other)
ORDERS = [CROSS_QS, CROSS_QS[::-1], ["power_1h_cross_fnc", "corr_1h_cross_fnc", "corr_2h_cross"],
          ["corr_cross"], ["cross_hod", "corr_1h_cross"], []]


def bounds(tier):
    n = {k: len(alphabet(k)) for k in SYS}
    return (
        f"{n} operations per derived model ('+on': started with its switches on, first operation turns one off): all single operations, "
        + ("all ordered pairs" if tier == "thorough" else
           "every second (WDM: fourth) ordered pair containing an operation of the model's own")
        + f"; cross-correlations: {len(CROSS_OPS) + len(BOTH_OPS)} operations x 3 routes x "
        f"{len(ORDERS)} read orders"
        + (" (quick: 3 routes for one order, 1 route for 3 more)" if tier == "quick" else "") + ", and "
        + ("all" if tier == "thorough" else "every sixth of the") + " ordered pairs of them"
    )


def units(tier):
    u = []
    for name in SYS:
        for a in range(SYS[name].get("first", len(alphabet(name)))):
            u.append(("hist", name, a))
    for i in range(len(CROSS_OPS) + len(BOTH_OPS)):
        u.append(("cross", i))
        u.append(("crosspair", i))
    return u


def readall(o, qs):
    for q in qs:
        read(o, q)


def end(res, key, hist, name, o, exc, spec):
    ref = fresh(name).get(spec)
    res.states += 1
    if ref[0] == "rejected":
        res.count("rejected_states")
        if exc is None and not any(str(read(o, q)).startswith("!") for q in qs_of(name)):
            res.fail(f"accepts:{key}", f"fresh model rejects ({ref[1:]}) what {hist} accepted")
        return False
    if exc is not None:
        res.fail(f"raises:{key}", f"{hist} raised {exc} although the resulting model is valid",
                 history=hist)
        return False
    compare(res, key, hist, o, ref, qs_of(name), read)
    return True


def run_hist(unit, tier, res):
    _, name, ai = unit
    s = SYS[name]
    ops = alphabet(name)
    qs = qs_of(name)
    a = ops[ai]
    base = Spec(s["base"])
    proto = s["cls"](**thaw(s["base"]))
    readall(proto, qs)

    def step(o, op, route="update"):
        res.transitions += 1
        try:
            if route == "clone":
                return o.clone(**thaw(op)), None
            o.update(**thaw(op))
            return o, None
        except Exception as e:
            return o, type(e).__name__

    for route in ("update", "clone"):
        o, exc = step(proto.clone(), a, route)
        legal = end(res, f"{name}:{route}:{op_key(a)}", [name, route, a], name, o, exc, base.apply(a))
    end(res, f"{name}:orig:{op_key(a)}", [name, "clone original", a], name, proto, None, base)
    if not legal:
        return
    # o has been updated and fully read (compare read it)
    for bi, b in enumerate(ops):
        if tier == "quick" and not (ai < len(s["own"])) and not (bi < len(s["own"])):
            continue
        on = "first" in s
        if tier == "quick" and on and bi >= len(s["own"]) and (ai + bi) % 4:
            continue
        if tier == "quick" and not on and (ai + bi) % (4 if name.endswith("WDM") else 2):
            continue
        c, exc = step(o.clone(), b)
        end(res, f"{name}:{op_key(a)}->{op_key(b)}", [name, a, b], name, c, exc,
            base.apply(a).apply(b))
    res.sample({"history": [name, "read all", a, "read all", "<every b>", "read all"]})


def cross_compare(res, key, hist, c, spec, exc):
    res.states += 1
    try:
        ref = cross_fresh(spec)
    except Exception as e:
        res.count("rejected_states")
        if exc is None:
            res.fail(f"accepts:{key}", f"fresh composite rejects ({e}) what {hist} accepted")
        return False
    if exc is not None:
        res.fail(f"raises:{key}", f"{hist} raised {exc} although the result is valid", history=hist)
        return False
    bad = [(q, read(c, q), ref[q]) for q in CROSS_QS]
    bad = [(q, v, w) for q, v, w in bad if not same(v, w)]
    res.traces += 1
    if bad:
        q, v, w = bad[0]
        res.fail(f"stale:{key}", f"{[b[0] for b in bad]} differ from a fresh composite after {hist}; "
                 f"{q}: {str(v)[:90]} != {str(w)[:90]}", history=hist)
    return True


def all_cross_ops():
    return CROSS_OPS + [("both", o) for o in BOTH_OPS]


def run_cross(unit, tier, res):
    where, op = all_cross_ops()[unit[1]]
    spec0 = CrossSpec()
    spec = spec0.apply(where, op)
    for oi, order in enumerate(ORDERS):
        for route in ("composite", "part", "clone"):
            if tier == "quick" and not (oi == 0 or route == "part" and oi < 4):
                continue
            c = spec0.build()
            c.halo_model_1, c.halo_model_2
            readall(c, order)
            orig = c
            exc = None
            res.transitions += 1
            try:
                c = cross_apply(c, where, op, route)
            except Exception as e:
                exc = f"{type(e).__name__}: {e}"
            key = f"cross:{where}:{op_key(op)}:{route}:{oi}"
            cross_compare(res, key, ["read", order, route, where, op], c, spec, exc)
            if route == "clone":
                cross_compare(res, key + ":orig", ["clone original", where, op], orig, spec0, None)
    res.sample({"history": ["read <order>", where, op, "read all"]})


def run_crosspair(unit, tier, res):
    ops = all_cross_ops()
    where, op = ops[unit[1]]
    spec0 = CrossSpec()
    s1 = spec0.apply(where, op)
    c0 = spec0.build()
    readall(c0, CROSS_QS)
    try:
        cross_apply(c0, where, op, "composite")
        readall(c0, CROSS_QS)
    except Exception:
        return
    for j, (w2, op2) in enumerate(ops):
        if tier == "quick" and (j + unit[1]) % 6:
            continue
        c = c0.clone()
        exc = None
        res.transitions += 1
        try:
            c = cross_apply(c, w2, op2, "part" if (j + unit[1]) % 8 else "composite")
        except Exception as e:
            exc = f"{type(e).__name__}: {e}"
        cross_compare(res, f"crosspair:{where}:{op_key(op)}->{w2}:{op_key(op2)}",
                      [where, op, w2, op2], c, s1.apply(w2, op2), exc)


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    {"hist": run_hist, "cross": run_cross, "crosspair": run_crosspair}[unit[0]](unit, tier, res)
    return res
