"""H01: after any bounded history, every quantity equals that of a fresh model."""

from __future__ import annotations

import itertools
import warnings

from ..core import Result
from ..histories import Fresh, Spec, compare, op_key, thaw
from ..impl import DMHaloModel, TracerHaloModel, canon, quantities, read, same

id = "H01"
level = "model_checking"
technique = (
    "stateless exhaustive exploration of update/read/clone/reject histories of the real model "
    "objects against a parameter-merge reference model and freshly built objects"
)
level_note = (
    "Every history within the bounds is executed on the real code and every quantity compared with "
    "a new object; assumes hmf is deterministic for a fresh object; says nothing about parameter "
    "values outside the alphabet or histories longer than the bound."
)
rule = (
    "state = (parameter assignment, set of quantities read so far) reached by one history; "
    "transition = one update / direct assignment / clone / rejected update executed on the real "
    "object; trace = one complete read-out of all quantities compared with a freshly built model"
)
assumptions = [
    "hmf (the dependency) computes the same values for the same parameters in a fresh object",
    "coarse numerical grids exercise the same dependency structure as fine ones",
]

BASE = dict(
    transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-7, lnk_max=6, dlnk=0.5,
    rnum=4, rmin=0.1, rmax=40, dr_table=0.4, hmf_model="Tinker08", hod_params={"central": True},
)

#: operations whose target decides *which* other parameters matter
STRUCT = [
    dict(hmf_model="SMT"),
    dict(mdef_model="SOVirial"),
    dict(mdef_model="SOMean", mdef_params={"overdensity": 300}),
    dict(filter_model="SharpK"),
    dict(growth_model="Carroll1992"),
    dict(transfer_model="BBKS"),
    dict(halo_profile_model="Hernquist"),
    dict(halo_profile_model="GeneralizedNFW", halo_profile_params={"alpha": 1.2}),
    dict(halo_concentration_model="Bullock01"),
    dict(bias_model="ST99"),
    dict(sd_bias_model="TinkerSD05"),
    dict(exclusion_model="DblSphere"),
    dict(exclusion_model="Sphere"),
    dict(hc_spectrum="nonlinear"),
    dict(hc_spectrum="filtered-nl"),
    dict(hc_spectrum="filtered-lin"),
    dict(rmin=[1.0, 3.0, 9.0]),
    dict(rlog=False),
    dict(force_1halo_turnover=False),
    dict(force_unity_dm_bias=False),
    dict(disable_mass_conversion=False),
    dict(hod_model="Zheng05"),
    dict(tracer_profile_model="CoredNFW"),
    dict(tracer_profile_model="GeneralizedNFW"),
    dict(tracer_concentration_model="Duffy08"),
    dict(tracer_concentration_model="Ludlow16"),
    dict(tracer_density=5e-3),
]
PLAIN = [
    dict(z=0.7),
    dict(n=0.9),
    dict(sigma_8=0.7),
    dict(cosmo_model="WMAP5"),
    dict(cosmo_params={"Om0": 0.25}),
    dict(takahashi=False),
    dict(lnk_min=-6.0),
    dict(lnk_max=5.0),
    dict(dlnk=0.4),
    dict(Mmin=10.5),
    dict(Mmax=15.5),
    dict(dlog10m=0.4),
    dict(hmf_params={"A_200": 0.2}),
    dict(delta_c=1.6),
    dict(bias_params={"B": 0.2}),
    dict(halo_concentration_params={"a": 8.0}),
    dict(sd_bias_params={"a": 1.3}),
    dict(colossus_params={"flat": True}),
    dict(hm_logk_min=-1.5),
    dict(hm_logk_max=1.0),
    dict(hm_dlog10k=0.2),
    dict(rmin=0.2),
    dict(rmax=30.0),
    dict(rnum=5),
    dict(dr_table=0.3),
    dict(hod_params={"M_min": 12.0}),
    dict(hod_params={"alpha": 1.2}),
    dict(hod_params={"central": False}),
    dict(hod_params={}),
    dict(tracer_profile_params={"alpha": 0.7}),
    dict(tracer_concentration_params={"a": 9.0}),
]
ALPHABET = STRUCT + PLAIN
DM_OPS = [o for o in ALPHABET if not any(k.startswith(("tracer", "hod")) for k in o)]

#: what triples are explored over in the thorough tier
FOCUS = [
    dict(sd_bias_model="TinkerSD05"),
    dict(sd_bias_params={"a": 1.3}),
    dict(halo_profile_model="Hernquist"),
    dict(tracer_profile_model="GeneralizedNFW"),
    dict(tracer_profile_params={"alpha": 0.7}),
    dict(tracer_concentration_model="Duffy08"),
    dict(tracer_concentration_params={"a": 9.0}),
    dict(exclusion_model="DblSphere"),
    dict(hc_spectrum="nonlinear"),
    dict(force_1halo_turnover=False),
    dict(force_unity_dm_bias=False),
    dict(z=0.7),
    dict(takahashi=False),
    dict(hod_params={"M_min": 12.0}),
    dict(tracer_density=5e-3),
    dict(rmin=[1.0, 3.0, 9.0]),
    dict(rnum=5),
]

#: operations that only matter when a structural operation is NOT in force: explored after it
#: has been applied, read, undone and read again (the dependencies must have come back)
AFTER_REVERT = [
    (dict(rmin=[1.0, 3.0, 9.0]), dict(rmin=0.2), [dict(rnum=5), dict(rmax=30.0), dict(rlog=False)]),
    (dict(rlog=False), dict(rlog=True), [dict(rnum=5), dict(rmax=30.0)]),
    (dict(hc_spectrum="nonlinear"), dict(hc_spectrum="linear"), [dict(takahashi=False), dict(n=0.9), dict(z=0.7)]),
    (dict(hc_spectrum="linear"), dict(hc_spectrum="nonlinear"), [dict(takahashi=False), dict(dr_table=0.3)]),
    (dict(sd_bias_model="TinkerSD05"), dict(sd_bias_model=None), [dict(takahashi=False), dict(dr_table=0.3)]),
    (dict(sd_bias_model=None), dict(sd_bias_model="TinkerSD05"), [dict(sd_bias_params={"a": 1.3}), dict(takahashi=False)]),
    (dict(exclusion_model="Sphere"), dict(exclusion_model="NoExclusion"), [dict(dr_table=0.3), dict(delta_c=1.6)]),
    (dict(exclusion_model="NoExclusion"), dict(exclusion_model="Sphere"), [dict(dr_table=0.3), dict(z=0.7)]),
    (dict(force_1halo_turnover=False), dict(force_1halo_turnover=True), [dict(z=0.7), dict(mdef_model="SOVirial")]),
    (dict(force_1halo_turnover=True), dict(force_1halo_turnover=False), [dict(z=0.7)]),
    (dict(force_unity_dm_bias=True), dict(force_unity_dm_bias=False), [dict(bias_params={"B": 0.2}), dict(Mmax=15.5)]),
    (dict(force_unity_dm_bias=False), dict(force_unity_dm_bias=True), [dict(bias_params={"B": 0.2})]),
    (dict(halo_profile_model="Hernquist"), dict(halo_profile_model="NFW"), [dict(dr_table=0.3), dict(lnk_max=5.0)]),
    (dict(halo_profile_model="NFW"), dict(halo_profile_model="Hernquist"), [dict(dr_table=0.3), dict(lnk_max=5.0)]),
    (dict(tracer_profile_model="CoredNFW"), dict(tracer_profile_model=None),
     [dict(halo_profile_params={"eta_bloat": 0.3}), dict(halo_profile_model="Hernquist")]),
    (dict(tracer_profile_model=None), dict(tracer_profile_model="GeneralizedNFW"),
     [dict(tracer_profile_params={"alpha": 0.7}), dict(lnk_max=5.0)]),
    (dict(tracer_concentration_model="Duffy08"), dict(tracer_concentration_model=None),
     [dict(halo_concentration_params={"a": 8.0})]),
    (dict(tracer_concentration_model=None), dict(tracer_concentration_model="Zehavi11"),
     [dict(tracer_concentration_params={"a": 9.0}), dict(z=0.7)]),
    (dict(halo_concentration_model="Bullock01"), dict(halo_concentration_model="Duffy08"),
     [dict(mdef_model="SOVirial"), dict(halo_concentration_params={"a": 8.0})]),
    (dict(halo_concentration_model="Duffy08"), dict(halo_concentration_model="Bullock01"),
     [dict(delta_c=1.6), dict(n=0.9)]),
    (dict(bias_model="ST99"), dict(bias_model="Tinker10"), [dict(mdef_model="SOVirial"), dict(bias_params={"B": 0.2})]),
    (dict(bias_model="UnityBias"), dict(bias_model="ST99"), [dict(delta_c=1.6)]),
    (dict(hod_model="Zheng05"), dict(hod_model="Zehavi05"), [dict(hod_params={"M_min": 12.0}), dict(hod_params={"central": False})]),
    (dict(tracer_density=5e-3), dict(hod_params={"M_min": 11.7}), [dict(z=0.7), dict(hod_params={"alpha": 1.2})]),
    (dict(filter_model="SharpK"), dict(filter_model="TopHat"), [dict(delta_c=1.6), dict(dlnk=0.4)]),
    (dict(disable_mass_conversion=False), dict(disable_mass_conversion=True), [dict(mdef_model="SOVirial")]),
]

REJECTED = [
    dict(hc_spectrum="bogus"),
    dict(halo_profile_model="Nope"),
    dict(hod_params={"bogus": 1.0}),
    dict(bias_params={"bogus": 1.0}),
    dict(rmin=100.0),
    dict(hm_logk_min=5.0),
    dict(no_such_parameter=1),
    dict(z=0.4, no_such_parameter=1),
    dict(hc_spectrum="nonlinear", z=0.4, no_such_parameter=1),
    dict(halo_profile_params=3),
]
RESTORE = {
    "hod_params": {}, "bias_params": {}, "rmin": 0.1, "hm_logk_min": -2.0,
}

_skip = {"_growth_factor_fn"}
QS = quantities(TracerHaloModel, _skip)
DMQS = quantities(DMHaloModel, _skip)
_F = {}


def fresh(cls):
    if cls not in _F:
        _F[cls] = Fresh(cls, QS if cls is TracerHaloModel else DMQS, read)
    return _F[cls]


def bounds(tier):
    return (
        f"alphabet of {len(ALPHABET)} operations covering every parameter; all ordered pairs "
        + (" with at least one structural operation (structural-then-plain pairs: every fourth one; "
           "plain-then-structural: every third)"
           if tier == "quick" else "")
        + ", with a full read-out before, and with/without one in between; all (quantity, operation) "
        "singletons" + (" of structural operations" if tier == "quick" else "") + "; all operations via update, direct assignment, clone, combined update and revert; "
        f"{len(REJECTED)} rejected updates followed by recovery; {len(AFTER_REVERT)} structural operations applied (or in force from construction), read, "
        "undone, read, then each operation that they had made irrelevant"
        + ("; all triples over a focus alphabet of %d operations x 4 read patterns" % len(FOCUS)
           if tier == "thorough" else "")
    )


def units(tier):
    u = []
    n = len(ALPHABET)
    # quick: with the read-out in between for every a; without it for the structural ones
    u += [("pairs", a, "read") for a in range(n)]
    u += [("pairs", a, "noread") for a in range(n if tier == "thorough" else len(STRUCT))]
    u += [("single", a) for a in range(n if tier == "thorough" else len(STRUCT))]
    u += [("routes", a) for a in range(n)]
    u += [("dm", a) for a in range(len(DM_OPS))]
    u += [("reject", r) for r in range(len(REJECTED))]
    u += [("after", i) for i in range(len(AFTER_REVERT))]
    if tier == "thorough":
        m = len(FOCUS)
        u += [("triple", a, b, pat) for a in range(m) for b in range(m) if a != b for pat in range(4)]
    return u


def readall(o, qs):
    for q in qs:
        read(o, q)


def step(res, o, op, route="update"):
    """Execute one operation on the real object; returns (object, exception name or None)."""
    res.transitions += 1
    try:
        if route == "update":
            o.update(**thaw(op))
        elif route == "set":
            for k, v in thaw(op).items():
                setattr(o, k, v)
        elif route == "clone":
            o = o.clone(**thaw(op))
        return o, None
    except Exception as e:
        return o, type(e).__name__


def check_end(res, key, hist, cls, o, exc, spec, names=None):
    """Compare the end state with the reference; returns True if the state is legal."""
    qs = QS if cls is TracerHaloModel else DMQS
    ref = fresh(cls).get(spec)
    res.states += 1
    if ref[0] == "rejected":
        if exc is None:
            # must then be just as unusable when evaluated
            if not any(str(read(o, q)).startswith("!") for q in qs):
                res.fail(f"accepts:{key}", f"fresh model rejects ({ref[1:]}) what {hist} accepted")
        res.count("rejected_states")
        return False
    if exc is not None:
        res.fail(f"raises:{key}", f"{hist} raised {exc} although the resulting model is valid",
                 history=hist)
        return False
    compare(res, key, hist, o, ref, qs, read, names=names)
    return True


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    kind = unit[0]
    base = Spec(BASE)
    if kind == "pairs":
        a, mode = ALPHABET[unit[1]], unit[2]
        o = TracerHaloModel(**thaw(BASE))
        readall(o, QS)
        sa = base.apply(a)
        o, exc = step(res, o, a)
        if mode == "read":
            legal = check_end(res, op_key(a), [a], TracerHaloModel, o, exc, sa)
        else:
            legal = exc is None
        if not legal:
            return res
        for j, b in enumerate(ALPHABET):
            if tier == "quick" and (unit[1] >= len(STRUCT) or mode == "noread") and (
                j >= len(STRUCT) or b not in FOCUS and mode == "noread"
            ):
                continue
            if tier == "quick" and j >= len(STRUCT) and (j + unit[1]) % 4:
                continue
            if tier == "quick" and j < len(STRUCT) <= unit[1] and (j + unit[1]) % 3:
                continue
            c = o.clone()
            c, exc = step(res, c, b)
            check_end(res, f"{op_key(a)}->{op_key(b)}", [a, mode, b], TracerHaloModel, c, exc,
                      sa.apply(b))
        res.sample({"history": ["read all", a, mode, "<every b>", "read all"]})
    elif kind == "single":
        a = ALPHABET[unit[1]]
        sa = base.apply(a)
        proto = TracerHaloModel(**thaw(BASE))
        for q in QS:
            o = proto.clone()
            read(o, q)
            o, exc = step(res, o, a)
            check_end(res, f"{q}|{op_key(a)}", [f"read {q}", a], TracerHaloModel, o, exc, sa,
                      names=[q])
        res.sample({"history": ["read <every q>", a, "read q"]})
    elif kind == "routes":
        a = ALPHABET[unit[1]]
        sa = base.apply(a)
        for route in ("set", "clone"):
            o = TracerHaloModel(**thaw(BASE))
            readall(o, QS)
            if route == "set" and (len(a) > 1 or "tracer_density" in a):
                continue
            orig = o
            o, exc = step(res, o, a, route)
            check_end(res, f"{route}:{op_key(a)}", [route, a], TracerHaloModel, o, exc, sa)
            if route == "clone":
                check_end(res, f"clone-orig:{op_key(a)}", ["clone (original)", a], TracerHaloModel,
                          orig, None, base)
        # revert to the starting value
        back = {}
        probe = TracerHaloModel(**thaw(BASE))
        for k in a:
            if k.endswith("_params"):
                back[k] = {}
            else:
                back[k] = BASE.get(k, getattr(probe, k))
        o = probe
        readall(o, QS)
        o, exc = step(res, o, a)
        if exc is None:
            readall(o, QS)
            sb = sa
            for k, v in back.items():
                o, exc = step(res, o, {k: v})
                sb = sb.apply({k: v})
            if "hod_params" in back:
                o, exc = step(res, o, {"hod_params": dict(BASE["hod_params"])})
                sb = sb.apply({"hod_params": dict(BASE["hod_params"])})
            if back.get("tracer_density", 0) is None:
                # releasing the request keeps the M_min it found
                sb = sb.apply({"hod_params": {"M_min": o.hod_params["M_min"]}})
            check_end(res, f"revert:{op_key(a)}", [a, "revert"], TracerHaloModel, o, exc, sb)
        # several parameters at once, in both orders
        for b in (dict(z=0.3), dict(hc_spectrum="nonlinear"), dict(takahashi=False)):
            if set(b) & set(a):
                continue
            for op in ({**a, **b}, {**b, **a}):
                o = TracerHaloModel(**thaw(BASE))
                readall(o, QS)
                o, exc = step(res, o, op)
                check_end(res, f"multi:{op_key(a)}+{op_key(b)}", [op], TracerHaloModel, o, exc,
                          base.apply(op))
    elif kind == "dm":
        a = DM_OPS[unit[1]]
        pb = {k: v for k, v in BASE.items() if not k.startswith(("hod", "tracer")) or k == "hmf_model"}
        sb = Spec(pb)
        o = DMHaloModel(**thaw(pb))
        readall(o, DMQS)
        o, exc = step(res, o, a)
        if not check_end(res, f"dm:{op_key(a)}", [a], DMHaloModel, o, exc, sb.apply(a)):
            return res
        for b in DM_OPS:
            if b in STRUCT and (tier == "thorough" or b in FOCUS):
                c = o.clone()
                c, exc = step(res, c, b)
                check_end(res, f"dm:{op_key(a)}->{op_key(b)}", [a, b], DMHaloModel, c, exc,
                          sb.apply(a).apply(b))
    elif kind == "reject":
        r = REJECTED[unit[1]]
        for pre in (None, dict(hc_spectrum="filtered-nl"), dict(z=0.7)):
            for read_before in (True, False):
                o = TracerHaloModel(**thaw(BASE))
                if pre:
                    o.update(**thaw(pre))
                if read_before:
                    readall(o, QS)
                before = canon(o.parameter_values)
                o, exc = step(res, o, r)
                res.states += 1
                if exc is None and not any(str(read(o, q)).startswith("!") for q in QS):
                    res.fail(f"notrejected:{op_key(r)}", f"invalid update {r} was accepted")
                    continue
                if len(r) == 1 and next(iter(r)) not in RESTORE:
                    if not same(canon(o.parameter_values), before):
                        res.fail(f"rejected-changes:{op_key(r)}",
                                 f"rejected update {r} changed the parameters")
                for k in r:
                    if k in RESTORE:
                        step(res, o, {k: thaw(RESTORE[k])})
                for b in (None, dict(rnum=5), dict(dr_table=0.3), dict(hc_spectrum="linear"),
                          dict(halo_profile_model="Hernquist"), dict(exclusion_model="Sphere")):
                    c = o.clone()
                    exc = None
                    if b:
                        c, exc = step(res, c, b)
                    sp = Spec({k: v for k, v in c.parameter_values.items()})
                    check_end(res, f"reject:{op_key(r)}:{op_key(b)}", [pre, r, "recover", b],
                              TracerHaloModel, c, exc, sp)
        res.sample({"history": ["read all?", "rejected", r, "recover", "<op>", "read all"]})
    elif kind == "after":
        a, back, then = AFTER_REVERT[unit[1]]
        if tier == "thorough":
            then = ALPHABET
        for born in (False, True):
            # with the operation applied to a model already read, or in force from construction
            s = base.apply(a) if born else base
            o = TracerHaloModel(**thaw(s.p))
            readall(o, QS)
            for op in (back,) if born else (a, back):
                o, exc = step(res, o, op)
                s = s.apply(op)
                if exc is not None:
                    res.fail(f"raises:after:{op_key(op)}", f"{op} raised {exc}")
                    return res
                readall(o, QS)
            h = ["built with" if born else "read", a, "read", back, "read"]
            key = f"{'born' if born else 'after'}:{op_key(a)}->{op_key(back)}"
            check_end(res, key, h, TracerHaloModel, o, None, s)
            for c in then:
                x = o.clone()
                x, exc = step(res, x, c)
                check_end(res, f"{key}->{op_key(c)}", h + [c], TracerHaloModel, x, exc, s.apply(c))
    elif kind == "triple":
        a, b, pat = FOCUS[unit[1]], FOCUS[unit[2]], unit[3]
        o = TracerHaloModel(**thaw(BASE))
        readall(o, QS)
        o, e1 = step(res, o, a)
        if pat & 1:
            readall(o, QS)
        o, e2 = step(res, o, b)
        if e1 or e2:
            return res
        if pat & 2:
            readall(o, QS)
        s = base.apply(a).apply(b)
        for c in FOCUS:
            x = o.clone()
            x, exc = step(res, x, c)
            check_end(res, f"{op_key(a)}->{op_key(b)}->{op_key(c)}|{pat}", [a, b, c, pat],
                      TracerHaloModel, x, exc, s.apply(c))
    return res
