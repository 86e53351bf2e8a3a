"""H21: batch and command-line runs equal direct calculations."""

from __future__ import annotations

import contextlib
import io
import itertools
import os
import tempfile

import numpy as np
import toml
from click.testing import CliRunner

from ..core import Result
from ..impl import DMHaloModel, TracerHaloModel, canon, grid, integrate_corr, same, wdm
from halomod import _cli, functional

id = "H21"
level = "model_checking"
technique = (
    "explicit enumeration of all single, pairwise and (bounded) triple lists of parameters from a menu covering every kind "
    "of parameter, for several frameworks and requested quantities, and of all command lines composed of a configuration "
    "file, overriding options and lists in a bounded set; every yielded or written combination is compared with a directly "
    "built model, and every written configuration is run again"
)
level_note = "Exhaustive over the combinations of menu entries up to the given size."
rule = "state = one combination of parameter lists or one command line ; transition = one quantity compared ; trace = one iteration or run"
assumptions = [
    "hmf's get_hmf and command-line driver are part of the observed behaviour",
    "the mass function that goes with a bias model by default is chosen when a model is built, so lists of bias models come with an explicit one",
    "yielded models are used before the next one is requested (they are one object)",
    "lists of parameter dictionaries that set different entries are not claimed (hmf merges them; listed as a finding)",
]

MENU = {
    "z": [0.0, 0.5, 2.0],
    "sigma_8": [0.7, 0.85],
    "n": [0.92, 1.0],
    "cosmo_params": [{"Om0": 0.25}, {"Om0": 0.35}],
    "transfer_model": ["EH", "BBKS"],
    "hmf_model": ["PS", "SMT", "Tinker08"],
    "delta_c": [1.6, 1.7],
    "Mmin": [10, 10.5],
    "dlog10m": [0.25, 0.5],
    "bias_model": ["SMT01", "Mo96", "Tinker10"],
    "halo_profile_model": ["NFW", "Hernquist"],
    "halo_concentration_model": ["Duffy08", "Bullock01Power"],
    "exclusion_model": ["NoExclusion", "Sphere"],
    "hc_spectrum": ["linear", "nonlinear"],
    "rmin": [0.1, 1.0],
    "rnum": [3, 5],
    "hm_dlog10k": [0.5, 1.0],
    "force_1halo_turnover": [True, False],
    "hod_model": ["Zehavi05", "Zheng05"],
    "hod_params": [{"M_min": 11.5}, {"M_min": 12.5}],
    "tracer_density": [1.5e-2, 1e-2],
}
TRACER = {"hod_model", "hod_params", "tracer_density"}
SETS = [["power_auto_tracer"], "corr_auto_matter", ["m", "dndm", "halo_bias"], ["mean_tracer_den", "corr_2h_auto_tracer"]]
DMSETS = [["power_auto_matter"], "corr_auto_matter", ["m", "dndm", "halo_bias"], ["cmz_relation"]]
CLS = {
    "dm": (DMHaloModel, {}),
    "tr": (TracerHaloModel, {}),
    "proj": (integrate_corr.ProjectedCF, {"rp_min": 0.3, "rp_max": 10, "rp_num": 3}),
    "wdm": (wdm.TracerHaloModelWDM, {"wdm_mass": 2.0, "halo_concentration_model": "Duffy08WDM"}),
}


def keys(c):
    return [k for k in MENU if c != "dm" or k not in TRACER]


def bounds(tier):
    return {"parameters": list(MENU), "list combinations": "1, 2, 3 for every framework" if tier != "quick" else "1 for every framework, every 2 for one framework, selected 3", "frameworks": list(CLS),
            "command lines": len(CFGS) * len(ARGS)}


def units(tier):
    out = []
    for c in CLS:
        for k in keys(c):
            out.append(("lists", c, k))
    out += [("cli", i) for i in range(len(CFGS))] + [("cli-list", i) for i in range(len(CLILISTS))] + [("reject",), ("findings",)]
    return out


def build(cls, kw, qs):
    m = cls(**kw)
    return [canon(getattr(m, q)) for q in qs]


def eq_param(obj, k, v):
    g = getattr(obj, k)
    if isinstance(g, type):
        return g.__name__ == v
    if isinstance(v, dict):
        return all(g.get(a) == b for a, b in v.items())
    return g == v


def run_lists(u, tier, res):
    _, c, k0 = u
    cls, extra = CLS[c]
    ks = keys(c)
    i0 = ks.index(k0)
    combos = [(k0,)] + [(k0, k) for k in ks[i0 + 1 :]]
    trip = list(itertools.combinations(ks[i0 + 1 :], 2))
    ci = list(CLS).index(c)
    if tier == "quick":
        combos = [x for n, x in enumerate(combos) if n == 0 or (n + i0) % len(CLS) == ci]
        trip = trip[ci::4][i0 % 7 :: 23]
    combos += [(k0, *t) for t in trip]
    base = {**grid(hmf_model="Tinker10"), **extra}
    memo = {}
    for n, lists in enumerate(combos):
        if "tracer_density" in lists and "hod_params" in lists:
            continue  # the density overrides the mass
        sets = SETS if c != "dm" else DMSETS
        every = tier != "quick" or len(lists) == 1
        for si, qs in enumerate(sets):
            if not every and si != (n + i0) % len(sets):
                continue
            names = [qs] if isinstance(qs, str) else qs
            label = (n + si) % 3 != 0
            kw = {**base, **{k: (MENU[k] if n % 2 else tuple(MENU[k])) for k in lists}}
            got = []
            args = {"get_label": label, "kls": cls}
            try:
                for item in functional.get_halomodel(qs, **args, **kw):
                    got.append((item[0], {k: v for k in lists for v in MENU[k] if eq_param(item[1], k, v)}, type(item[1]), item[2] if len(item) > 2 else None))
            except Exception as e:
                res.fail(f"lists-raise:{c}:{','.join(lists)}", f"get_halomodel over {lists} raises {type(e).__name__}: {e}")
                continue
            res.traces += 1
            res.states += 1
            want = list(itertools.product(*(MENU[k] for k in lists)))
            seen = [tuple(g[1].get(k) for k in lists) for g in got]
            if sorted(map(repr, seen)) != sorted(map(repr, want)):
                res.fail(f"lists-combos:{c}", f"get_halomodel over {lists} yields {len(seen)} combinations {seen}, requested {want}")
                continue
            if label != (got[0][3] is not None):
                res.fail(f"lists-label:{c}", f"labels are {'missing' if label else 'present'} for get_label={label}")
            for (vals, _, typ, lab), comb in zip(got, seen):
                cfg = {**base, **dict(zip(lists, comb))}
                key = (repr(comb), lists, si)
                if key not in memo:
                    memo[key] = build(cls, cfg, names)
                if typ is not cls:
                    res.fail(f"lists-cls:{c}", f"yields {typ.__name__} instead of {cls.__name__}")
                if len(vals) != len(names):
                    res.fail(f"lists-len:{c}", f"{len(vals)} quantities for {names}")
                for q, a, b in zip(names, vals, memo[key]):
                    res.transitions += 1
                    if not same(canon(a), b, rtol=1e-6):
                        res.fail(f"lists:{c}:{q}:{','.join(lists)}", f"{q} for {dict(zip(lists, comb))} from get_halomodel over {lists} differs from a directly built model")
                if label:
                    for k, v in zip(lists, comb):
                        parts = [f"{k}: {v}"] if not isinstance(v, (str, dict)) else [v] if isinstance(v, str) else [f"{a}: {b}" for a, b in v.items()]
                        if any(p not in lab.split(", ") for p in parts):
                            res.fail(f"label:{c}", f"label {lab!r} does not name {k}={v}")


def cli(cfg, args, name="halomod", more=()):
    """Run the command line tool in a scratch folder: (exit code, exception, {file: array}, {file: config})."""
    with tempfile.TemporaryDirectory() as t:
        os.mkdir(t + "/out")
        a = ["--outdir", t + "/out", *more]
        if cfg is not None:
            with open(t + "/in.toml", "w") as f:
                f.write(toml.dumps(cfg))
            a += ["--config", t + "/in.toml"]
        with contextlib.redirect_stdout(io.StringIO()):
            r = CliRunner().invoke(_cli.main, ["run", *a, "--", *args])
        data, cfgs = {}, {}
        for f in sorted(os.listdir(t + "/out")):
            p = os.path.join(t, "out", f)
            if f.endswith(".toml"):
                cfgs[f] = toml.load(p)
            else:
                data[f] = np.loadtxt(p) if os.path.getsize(p) else None
        return r.exit_code, r.exception, data, cfgs


G = grid()
CFGS = [
    (None, TracerHaloModel, {}, ["m", "dndm"]),
    ({"params": {}}, TracerHaloModel, {}, ["m", "dndm"]),
    ({"quantities": ["k_hm", "power_auto_tracer"], "params": {}}, TracerHaloModel, {}, None),
    ({"quantities": ["corr_auto_matter"], "framework": "halomod.DMHaloModel", "params": {"z": 0.4, "sigma_8": 0.75}}, DMHaloModel, {}, None),
    ({"quantities": ["corr_auto_tracer", "r", "halo_bias"], "params": {"hod_model": "Zheng05", "hod_params": {"M_min": 11.8, "alpha": 0.9}, "z": 1}}, TracerHaloModel, {}, None),
    ({"quantities": ["projected_corr_gal"], "framework": "halomod.integrate_corr.ProjectedCF", "params": {"rp_min": 0.3, "rp_max": 10.0, "rp_num": 3}}, integrate_corr.ProjectedCF, {}, None),
    ({"quantities": ["power_auto_tracer"], "params": {"tracer_density": 1e-2, "exclusion_model": "Sphere", "halo_profile_model": "Einasto", "halo_profile_params": {"alpha": 0.2}}}, TracerHaloModel, {}, None),
    ({"quantities": ["dndm", "cmz_relation"], "params": {"cosmo_model": "WMAP7", "hc_spectrum": "filtered-nl", "halo_concentration_model": "Bullock01", "halo_concentration_params": {"F": 0.02}}}, TracerHaloModel, {}, None),
    ({"quantities": ["power_auto_tracer", "tracer_cmz_relation"], "params": {"tracer_profile_model": "Hernquist", "tracer_concentration_model": "Bullock01Power",
      "tracer_concentration_params": {"norm": 1.3}, "force_1halo_turnover": False, "bias_model": "SMT01", "bias_params": {"a": 0.8}}}, TracerHaloModel, {}, None),
    ({"quantities": ["power_auto_matter", "dndm"], "framework": "halomod.wdm.HaloModelWDM", "params": {"wdm_mass": 2.0, "alter_model": "Schneider12"}}, wdm.HaloModelWDM, {}, None),
]
ARGS = [
    ([], {}),
    (["--z", "0.25"], {"z": 0.25}),
    (["z=0.25", "sigma_8=0.9"], {"z": 0.25, "sigma_8": 0.9}),
    (["--bias_model", "SMT01", "--n", "0.9"], {"bias_model": "SMT01", "n": 0.9}),
    (["hmf_model='SMT'", "--cosmo_params", "{'Om0': 0.28, 'H0': 70.0}"], {"hmf_model": "SMT", "cosmo_params": {"Om0": 0.28, "H0": 70.0}}),
    (["--rmin", "0.5", "--rnum=4", "--hm_dlog10k", "0.4", "--rlog", "False"], {"rmin": 0.5, "rnum": 4, "hm_dlog10k": 0.4, "rlog": False}),
]
TARGS = [
    (["--hod_params", "{'M_min': 12.2}", "hod_model=Zehavi05"], {"hod_params": {"M_min": 12.2}, "hod_model": "Zehavi05"}),
    (["--tracer_density", "0.012"], {"tracer_density": 0.012}),
]


def compare(res, key, data, cfgs, cls, eff, qs, name="halomod"):
    want = {f"{name}_{q}.txt" for q in qs}
    if set(data) != want or set(cfgs) != {f"{name}_cfg.toml"}:
        res.fail(f"{key}:files", f"wrote {sorted(data)} and {sorted(cfgs)} for quantities {qs}")
        return
    m = cls(**eff)
    for q in qs:
        res.transitions += 1
        e = np.asarray(getattr(m, q), float)
        g = data[f"{name}_{q}.txt"]
        if g is None or np.atleast_1d(g).shape != np.atleast_1d(e).shape or not np.allclose(g, e, rtol=1e-7, atol=0, equal_nan=True):
            res.fail(f"{key}:{q}", f"{q} written by the command line differs from the library's for {eff}")


def run_cli(u, tier, res):
    cfg0, cls, _, qs0 = CFGS[u[1]]
    args = ARGS + (TARGS if cls is not DMHaloModel and cls is not wdm.HaloModelWDM else [])
    for j, (a, over) in enumerate(args):
        if cfg0 is None:
            # no configuration file: the grid is given on the command line
            cfg = None
            a = [x for k, v in G.items() for x in ("--" + k, str(v))] + a
            eff = {**G, **over}
            qs = qs0
        else:
            cfg = {**cfg0, "params": {**G, **cfg0["params"]}}
            eff = {**cfg["params"], **over}
            qs = cfg.get("quantities", ["m", "dndm"])
        if "hod_model" in over and "hod_params" in eff:
            eff["hod_params"] = over["hod_params"]
        name = "halomod" if j % 2 else "run7"
        code, exc, data, cfgs = cli(cfg, a, name, [] if j % 2 else ["--label", "run7"])
        res.traces += 1
        res.states += 1
        if code != 0:
            res.fail(f"cli-raise:{u[1]}:{j}", f"halomod run with {cfg0} {a} fails: {type(exc).__name__}: {exc}")
            continue
        compare(res, f"cli:{u[1]}", data, cfgs, cls, eff, qs, name)
        # the written configuration reproduces the values
        written = cfgs.get(f"{name}_cfg.toml")
        if written is None:
            continue
        if written.get("quantities") != qs:
            res.fail(f"cli-cfgq:{u[1]}", f"written configuration lists {written.get('quantities')} instead of {qs}")
        again = dict(written)
        if cfg0 and "framework" in cfg0:
            again["framework"] = cfg0["framework"]
        code, exc, data2, _ = cli(again, [], name, ["--label", name])
        res.traces += 1
        if code != 0:
            res.fail(f"cli-again:{u[1]}:{j}", f"the configuration written by halomod run with {cfg0} {a} cannot be run: {type(exc).__name__}: {exc}")
            continue
        for f, v in data.items():
            res.transitions += 1
            if f not in data2 or not np.allclose(v, data2[f], rtol=1e-6, atol=0, equal_nan=True):
                res.fail(f"cli-again:{u[1]}:{f}", f"{f} is not reproduced by the written configuration ({cfg0}, {a})")


CLILISTS = [("z",), ("hod_model",), ("cosmo_params",), ("z", "sigma_8"), ("hod_params", "z"), ("rmin", "hmf_model"), ("bias_model", "n", "z"), ("halo_profile_model", "exclusion_model")]


def filelabel(lab):
    return set(lab.split("_"))


def run_cli_list(u, tier, res):
    lists = CLILISTS[u[1]]
    for where in ("config", "args"):
        qs = ["power_auto_tracer", "m", "cmz_relation"]
        cfg = {"quantities": qs, "params": dict(G, hmf_model="SMT")}
        a = []
        for k in lists:
            if where == "config":
                cfg["params"][k] = MENU[k]
            else:
                a += ["--" + k, repr(MENU[k])]
        code, exc, data, cfgs = cli(cfg, a)
        res.traces += 1
        res.states += 1
        if code != 0:
            res.fail(f"clilist-raise:{','.join(lists)}", f"halomod run over lists for {lists} fails: {type(exc).__name__}: {exc}")
            continue
        want = list(itertools.product(*(MENU[k] for k in lists)))
        if len(cfgs) != len(want) or len(data) != len(want) * len(qs):
            res.fail(f"clilist-files:{','.join(lists)}", f"{len(cfgs)} configurations and {len(data)} data files for {len(want)} combinations: {sorted(data)}")
            continue
        left = [dict(zip(lists, w)) for w in want]
        for f, w in cfgs.items():
            lab = f[: -len("_cfg.toml")]

            def match(comb):
                for k, v in comb.items():
                    g = w["params"][k]
                    if isinstance(v, dict):
                        for p, x in v.items():
                            if g[p] != x or f"{p}={x}" not in lab:
                                return False
                    elif g != v or (v if isinstance(v, str) else f"{k}={v}") not in lab:
                        return False
                return True

            hit = [x for x in left if match(x)]
            if len(hit) != 1:
                res.fail(f"clilist-label:{','.join(lists)}", f"configuration {f} matches {hit} of the requested combinations")
                continue
            left.remove(hit[0])
            m = TracerHaloModel(**{**G, "hmf_model": "SMT", **hit[0]})
            for q in qs:
                res.transitions += 1
                g = data.get(f"{lab}_{q}.txt")
                if g is None or not np.allclose(g, getattr(m, q), rtol=1e-7):
                    res.fail(f"clilist:{','.join(lists)}:{q}", f"{lab}_{q}.txt is not the {q} of {hit[0]}")


def run_reject(u, tier, res):
    bad = [
        ("parameter", {"params": G}, ["--no_such_parameter", "1"]),
        ("quantity", {"params": G, "quantities": ["no_such_quantity"]}, []),
        ("model", {"params": G}, ["--hod_model", "NoSuchModel"]),
        ("modelparam", {"params": G}, ["--hod_params", "{'nothing': 3}"]),
        ("bias", {"params": {**G, "bias_model": "NoSuchBias"}}, []),
        ("value", {"params": G}, ["--wrong", "[1,2]", "--z", "[0,1]"]),
    ]
    for n, cfg, a in bad:
        code, exc, data, cfgs = cli({"quantities": ["dndm", "power_auto_tracer"], **cfg}, a)
        res.traces += 1
        res.transitions += 1
        if code == 0 or cfgs:
            res.fail(f"cli-accepts:{n}", f"halomod run accepts an invalid {n}: {cfg.get('quantities')} {a}")
    for kw in ({"no_such_parameter": 1}, {"no_such_parameter": [1, 2]}, {"hod_model": "NoSuchModel"}, {"hod_model": ["Zheng05", "NoSuchModel"]}):
        res.transitions += 1
        try:
            list(functional.get_halomodel(["dndm", "mean_tracer_den"], **{**G, **kw}))
        except Exception:
            continue
        res.fail("lists-accepts", f"get_halomodel accepts {kw}")


def run_findings(u, tier, res):
    """Behaviour of the driver on inputs listed as findings."""
    code, exc, data, _ = cli({"quantities": ["mean_tracer_den"], "params": G}, [])
    res.transitions += 1
    if code != 0 or float(data["halomod_mean_tracer_den.txt"]) != TracerHaloModel(**G).mean_tracer_den:
        res.fail("cli-scalar", f"halomod run cannot write a scalar quantity (mean_tracer_den): {exc}")
    code, exc, data, cfgs = cli({"quantities": ["dndm"], "framework": "halomod.wdm.HaloModelWDM", "params": {**G, "wdm_mass": 2.0}}, [])
    res.transitions += 1
    if code != 0 or not cfgs:
        res.fail("cli-wdm", f"halomod run cannot write the configuration of a warm model without recalibration: {exc}")
    got = [i[0][0] for i in functional.get_halomodel(["mean_tracer_den"], hod_params=[{"M_min": 12.5}, {"M_1": 14.0}], **G)]
    res.transitions += 1
    if not np.allclose(got, [TracerHaloModel(hod_params=p, **G).mean_tracer_den for p in ({"M_min": 12.5}, {"M_1": 14.0})]):
        res.fail("params-merge", "get_halomodel over hod_params=[{'M_min': 12.5}, {'M_1': 14.0}] keeps M_min=12.5 for the second combination")


def run_unit(u, tier):
    res = Result()
    {"lists": run_lists, "cli": run_cli, "cli-list": run_cli_list, "reject": run_reject, "findings": run_findings}[u[0]](u, tier, res)
    res.sample(str(u))
    return res
