"""H20: warm dark matter changes only what it should."""

from __future__ import annotations

import itertools

import numpy as np

from ..core import Result
from ..impl import DMHaloModel, TracerHaloModel, canon, grid, integrate_corr, read, same, tools, wdm

id = "H20"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (framework x particle mass x transfer model x recalibration x concentration "
    "relation and its parameters x redshift x filter x bias convention) and of every update history up to a depth on "
    "the real warm frameworks, against the published formulae, own mass integrals, the unmodified models and the "
    "cold frameworks"
)
level_note = "Exhaustive over the lattice and the histories; masses and redshifts are representative."
rule = "state = one configuration ; transition = one quantity or bin compared ; trace = one configuration or history"
assumptions = [
    "hmf's half-mode scale (its own physical mean density) is the definition of the half-mode mass",
    "one- and two-halo terms are right (H08, H09), transforms are right (H15)",
    "the tracer-matter cross terms of the warm frameworks are those of the haloes only",
]

CLS = {"dm": wdm.HaloModelWDM, "tr": wdm.TracerHaloModelWDM, "proj": wdm.ProjectedCFWDM}
COLD = {"dm": DMHaloModel, "tr": TracerHaloModel, "proj": integrate_corr.ProjectedCF}
CMS = ["Duffy08", "Bullock01", "Bullock01Power", "Zehavi11", "Ludlow16Empirical", "Ludlow16", "Maccio07"]
MX = [0.6, 1.0, 3.3, 20.0]
ALTER = [(None, {}), ("Schneider12_vCDM", {}), ("Schneider12", {"alpha": 0.3}), ("Schneider12", {}), ("Lovell14", {"gamma": 1.1}), ("Lovell14", {})]
CMP = [{}, {"g1": 15}, {"g2": 0.4}, {"beta0": 0.2, "beta1": -0.3}, {"g1": 100, "g2": 0.05, "beta1": 0.5}]
FILTER = ["TopHat", "SharpK"]


def wgrid(**kw):
    return grid(**{**dict(rnum=4, Mmin=9, Mmax=16, dlog10m=0.05, dlnk=0.1, lnk_min=-9, lnk_max=7, dr_table=0.05), **kw})


def bounds(tier):
    return {"mx": MX, "recalibrations": len(ALTER), "concentrations": CMS, "concentration parameters": len(CMP), "filters": FILTER,
            "history depth": 2 if tier == "quick" else 3, "updates": [str(u) for u in STEPS]}


def units(tier):
    out = [("transfer", c) for c in CLS] + [("conc", c, cm) for c in CLS for cm in CMS]
    out += [("power", c, f, i) for c in CLS for f in FILTER for i in range(len(MX))]
    out += [("cold", c, i) for c in CLS for i in range(len(COLDCFG))] + [("default", c) for c in CLS]
    depth = bounds(tier)["history depth"]
    for c in CLS:
        for first in range(len(STEPS)):
            out.append(("hist", c, first, depth))
    return out


def m_hm(h, mx, p):
    """Schneider et al. (2012), with hmf's mean density."""
    mu, gx = p.get("mu", 1.12), p.get("g_x", 1.5)
    cos = h.cosmo
    a = 0.049 * mx**-1.11 * ((cos.Om0 - cos.Ob0) / 0.25) ** 0.11 * (cos.h / 0.7) ** 1.22 * (1.5 / gx) ** 0.29
    lhm = 2 * np.pi * a * (2 ** (mu / 5) - 1) ** (-0.5 / mu)
    return a, 4 * np.pi / 3 * h.mean_density0 * (1 + h.z) ** 3 * (lhm / 2) ** 3


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol))


def worst(a, b):
    with np.errstate(all="ignore"):
        return float(np.nanmax(np.abs(np.asarray(a) / np.asarray(b) - 1)))


def run_transfer(u, tier, res):
    cls, cold = CLS[u[1]], COLD[u[1]]
    for mx, mdl, wp, z in itertools.product(MX, ("Viel05", "Bode01"), ({}, {"mu": 1.0}, {"g_x": 2.0}), (0, 1.5)):
        kw = wgrid(z=z, halo_concentration_model="Duffy08", Mmin=11)
        h = cls(wdm_mass=mx, wdm_model=mdl, wdm_params=wp, **kw)
        c = cold(**kw)
        a, mh = m_hm(h, mx, wp)
        mu = wp.get("mu", 1.12)
        t2 = (1 + (a * h.k) ** (2 * mu)) ** (-10.0 / mu)
        ok = h.k < 60
        r = (h.power / c.power / t2)[ok]
        res.traces += 1
        res.states += 1
        res.transitions += ok.sum()
        if not close(r, np.full_like(r, r[0]), 1e-6):
            res.fail(f"transfer:{u[1]}:{mdl}", f"warm/cold power is not the squared warm transfer (mx={mx}, z={z}, {wp}): varies by {np.ptp(r) / r[0]:.2e}")
        if not close(h.wdm.m_hm, mh, 1e-6):
            res.fail(f"mhm:{u[1]}:{mdl}", f"half-mode mass {h.wdm.m_hm:.4g}, expected {mh:.4g} (mx={mx}, z={z}, {wp})")
        for al, ap in ALTER[1:]:
            w = cls(wdm_mass=mx, wdm_model=mdl, wdm_params=wp, alter_model=al, alter_params=ap, **kw)
            if al.startswith("Schneider12"):
                e = (1 + mh / h.m) ** -(ap.get("beta", 1.16) if al.endswith("vCDM") else ap.get("alpha", 0.6))
            else:
                e = (1 + ap.get("gamma", 2.7) * mh / h.m) ** -ap.get("beta", 0.99)
            res.states += 1
            res.transitions += len(h.m)
            good = h.dndm > 0
            if not close(w.dndm[good], (h.dndm * e)[good], 1e-6):
                res.fail(f"alter:{u[1]}:{al}", f"mass function with {al}{ap} differs from the recalibration by {worst(w.dndm[good], (h.dndm * e)[good]):.2e} (mx={mx}, z={z})")
            # everything downstream uses the recalibrated function
            b = w.halo_bias
            x = np.log(w.m)
            rho = np.trapezoid(w.m**2 * w.dndm, x)
            if not close(w.mean_density_halos, rho, 5e-3):
                res.fail(f"rho:{u[1]}:{al}", f"mass in haloes {w.mean_density_halos:.5g}, own integral {rho:.5g}")
            if not close(w.f_halos, rho / w.mean_density0, 5e-3):
                res.fail(f"fhalos:{u[1]}:{al}", f"clumped fraction {w.f_halos:.5g}, own integral {rho / w.mean_density0:.5g} (mx={mx}, z={z})")
            if not np.all(np.isfinite(b)):
                res.fail(f"bias:{u[1]}:{al}", "halo bias not finite")


def run_conc(u, tier, res):
    _, cn, cm = u
    cls = CLS[cn]
    tr = cn != "dm"
    for mx, par, z, (al, ap) in itertools.product(MX[1:], CMP, (0, 0.7, 2), ALTER[:1] if tier == "quick" else ALTER[:3]):
        if tier == "quick" and (MX.index(mx) + CMP.index(par)) % 2 and par:
            continue
        kw = wgrid(z=z, wdm_mass=mx, alter_model=al, alter_params=ap)
        kw["dlog10m"] = 0.2
        h0 = cls(halo_concentration_model=cm, **kw)
        h = cls(halo_concentration_model=cm + "WDM", halo_concentration_params=par, **kw)
        mh = m_hm(h, mx, {})[1]
        q = {"g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04, **par}
        f = (1 + q["g1"] * mh / h.m) ** -q["g2"] * (1 + z) ** (q["beta0"] * z - q["beta1"])
        e = h0.cmz_relation * f
        res.states += 1
        res.traces += 1
        res.transitions += len(e)
        if not close(h.cmz_relation, e, 1e-7):
            res.fail(f"conc:{cn}:{cm}", f"{cm}WDM {par} differs from the rescaled relation by {worst(h.cmz_relation, e):.2e} (mx={mx}, z={z})")
        if cm == "Duffy08" and not close(h.halo_profile_ukm, h0.halo_profile.u(h.k, h.m, c=e, norm="m"), 1e-6, 1e-9):
            res.fail(f"conc-ukm:{cn}:{cm}", "transformed profile does not use the rescaled concentration")
        if tr:
            t = cls(halo_concentration_model="Duffy08", tracer_concentration_model=cm + "WDM", tracer_concentration_params=par, **kw)
            res.transitions += len(e)
            if not close(t.tracer_cmz_relation, e, 1e-7):
                res.fail(f"tconc:{cn}:{cm}", f"tracer {cm}WDM {par} differs from the rescaled relation by {worst(t.tracer_cmz_relation, e):.2e} (mx={mx}, z={z})")
            if not close(t.cmz_relation, cls(halo_concentration_model="Duffy08", **kw).cmz_relation, 1e-7):
                res.fail(f"tconc-halo:{cn}:{cm}", "the tracers' relation changed that of the haloes")
            if not close(h.tracer_cmz_relation, e, 1e-7):
                res.fail(f"tconc-default:{cn}:{cm}", "tracers without an own relation do not use that of the haloes")
            g = cls(halo_concentration_model=cm + "WDM", halo_concentration_params=par, tracer_concentration_model=cm + "WDM", **kw)
            if not close(g.tracer_cmz_relation, e, 1e-7):
                res.fail(f"tconc-same:{cn}:{cm}", "tracers with the haloes' relation do not take its parameters")


def run_power(u, tier, res):
    _, cn, filt, mi = u
    cls = CLS[cn]
    mx = MX[mi]
    opts = list(itertools.product(ALTER if tier != "quick" else ALTER[:2] + ALTER[4:5], (0, 1), (True, False), ("linear", "nonlinear", "filtered-nl")))
    for n, ((al, ap), z, unity, hc) in enumerate(opts):
        if tier == "quick" and (n + mi) % 2:
            continue
        kw = wgrid(z=z, wdm_mass=mx, alter_model=al, alter_params=ap, filter_model=filt, halo_concentration_model="Duffy08WDM",
                   force_unity_dm_bias=unity, hc_spectrum=hc, hmf_model="SMT" if n % 3 else "Tinker10")
        h = cls(**kw)
        tag = f"mx={mx} {al}{ap} z={z} unity={unity} {hc} {filt}"
        res.states += 1
        res.traces += 1
        x = np.log(h.m)
        rho = np.trapezoid(h.m**2 * h.dndm, x)
        f = rho / h.mean_density0
        if not close(h.f_halos, f, 5e-3):
            res.fail(f"pf:{cn}", f"clumped fraction {h.f_halos:.5g}, own integral {f:.5g} ({tag})")
            continue
        f = h.f_halos
        if not close(h.mean_density_halos + h.mean_density_smooth, h.mean_density0, 1e-9) or not close(h.mean_density_halos, f * h.mean_density0, 1e-9):
            res.fail(f"pdens:{cn}", f"densities of haloes and smooth matter do not add up ({tag})")
        beff = np.trapezoid(h.m**2 * h.dndm * h.halo_bias, x) / rho
        b = 1.0 if unity else beff
        bs = (1 - f * b) / (1 - f)
        if not close(h.bias_smooth, bs, 5e-3, 5e-3 * f / (1 - f)):
            res.fail(f"pbs:{cn}", f"smooth bias {h.bias_smooth:.5g}, expected {bs:.5g} ({tag})")
        bs = h.bias_smooth
        phc = h._power_halo_centres_fnc(h.k_hm)
        uk = h.halo_profile.u(h.k_hm, h.m, norm="m", c=h.cmz_relation)
        beffk = np.trapezoid(h.m**2 * h.dndm * h.halo_bias * uk, x, axis=-1) / rho
        if unity:
            beffk = beffk / beff
        e = {"ss": bs**2 * phc, "sh": bs * phc * beffk,
             "hh": h.power_1h_auto_matter / f**2 + h.power_2h_auto_matter}
        res.transitions += 5 * len(h.k_hm)
        for q, v in e.items():
            g = getattr(h, f"power_auto_matter_{q}")
            if not close(g, v, 1e-2 if q == "sh" else 1e-6, 1e-9 * abs(v).max()):
                res.fail(f"p{q}:{cn}", f"power_auto_matter_{q} differs from the definition by {worst(g, v):.2e} ({tag})")
        tot = (1 - f) ** 2 * h.power_auto_matter_ss + 2 * f * (1 - f) * h.power_auto_matter_sh + f**2 * h.power_auto_matter_hh
        if not close(h.power_auto_matter, tot, 1e-6):
            res.fail(f"ptot:{cn}", f"matter power is not the combination of smooth and clumped parts, off by {worst(h.power_auto_matter, tot):.2e} ({tag})")
        # large scales: all matter traces the halo-centre power once
        low = np.array([0])
        large = (h.power_auto_matter - h.power_1h_auto_matter)[low]
        if not close(large, phc[low], 2e-2):
            res.fail(f"plarge:{cn}", f"matter power on large scales is {large / phc[low]} of the halo-centre power ({tag})")
        # functions agree with the tables
        g = h.power_auto_matter_fnc(h.k_hm)
        if not close(g, h.power_auto_matter, 2e-3, 1e-6 * h.power_auto_matter.max()):
            res.fail(f"pfnc:{cn}", f"power_auto_matter_fnc differs from power_auto_matter by {worst(g, h.power_auto_matter):.2e} ({tag})")
        if hc != "filtered-nl":
            def smooth(k):
                return h.power_auto_matter_fnc(k) - f**2 * (h.power_1h_auto_matter_fnc(k) / f**2 + h.power_2h_auto_matter_fnc(k))

            r = h.r
            cs = tools.hankel_transform(smooth, r, "r", h=1e-4)
            c = h.corr_1h_auto_matter + f**2 * h.corr_2h_auto_matter + cs
            res.transitions += len(r)
            if not close(h.corr_auto_matter, c, 5e-3, 1e-3 * np.abs(h.corr_2h_auto_matter).max() * (1 if hc == "linear" else 3)):
                res.fail(f"pcorr:{cn}", f"corr_auto_matter is not that of its parts: {h.corr_auto_matter} vs {c} ({tag})")


#: parts of the matter power in which the cold frameworks ignore smooth matter
OWN = {"power_auto_matter", "power_auto_matter_fnc", "corr_auto_matter", "corr_auto_matter_fnc"}
COLDCFG = [
    dict(z=0, halo_concentration_model="Duffy08WDM"),
    dict(z=1, halo_concentration_model="Duffy08"),
    dict(z=0.5, halo_concentration_model="Bullock01", filter_model="SharpK", hmf_model="PS", bias_model="Mo96", alter_model="Lovell14"),
    dict(z=0, halo_concentration_model="Ludlow16WDM", alter_model="Schneider12_vCDM", exclusion_model="Sphere"),
    dict(z=2, halo_concentration_model="Bullock01Power", alter_model="Schneider12", hc_spectrum="linear", sigma_8=0.7),
]


def run_cold(u, tier, res):
    _, cn, i = u
    cfg = dict(COLDCFG[i])
    w = {k: cfg.pop(k) for k in ("alter_model",) if k in cfg}
    kw = grid(**cfg)
    h = CLS[cn](wdm_mass=1e5, **w, **kw)
    c = COLD[cn](**{**kw, "halo_concentration_model": kw["halo_concentration_model"].replace("WDM", "")})
    res.states += 1
    res.traces += 1
    for q in c.quantities_available():
        if q in OWN:
            continue
        a, b = read(h, q), read(c, q)
        if isinstance(a, dict) or isinstance(b, dict):
            if isinstance(a, dict) and "cls" in a:
                continue  # components: judged by what they give
        res.transitions += 1
        if not same(a, b, rtol=2e-5, atol=0):
            res.fail(f"cold:{cn}:{q}", f"{q} of a 100 MeV particle differs from the cold model (configuration {COLDCFG[i]})")


def run_default(u, tier, res):
    cls = CLS[u[1]]
    for kw in ({}, {"z": 2}, {"wdm_mass": 1.0}, {"wdm_mass": 0.6, "filter_model": "SharpK"}):
        h = cls(transfer_model="EH", **kw)
        res.states += 1
        res.traces += 1
        for q in ("halo_bias", "cmz_relation", "f_halos", "bias_smooth", "power_auto_matter", "corr_auto_matter", "power_auto_matter_sh"):
            res.transitions += 1
            try:
                v = np.asarray(getattr(h, q))
            except Exception as e:
                res.fail(f"default:{u[1]}:{q}", f"{q} raises {type(e).__name__}: {e} for the default {cls.__name__}({kw})")
                continue
            if not np.all(np.isfinite(v)):
                res.fail(f"default:{u[1]}:{q}", f"{q} is not finite for the default {cls.__name__}({kw})")
        if not 0 < h.f_halos < 1:
            res.fail(f"default:{u[1]}:f", f"clumped fraction {h.f_halos} for the default {cls.__name__}({kw})")


STEPS = [
    {"wdm_mass": 0.9}, {"wdm_mass": 8.0}, {"z": 1.2}, {"sigma_8": 0.7}, {"wdm_params": {"g_x": 2.5}}, {"alter_model": "Lovell14"},
    {"alter_model": "Schneider12_vCDM", "alter_params": {"beta": 0.8}}, {"halo_concentration_params": {"g2": 0.3}},
    {"halo_concentration_model": "Duffy08"}, {"halo_concentration_model": "Bullock01WDM"}, {"cosmo_params": {"Om0": 0.4}}, {"force_unity_dm_bias": False},
]
WATCH = ["power_auto_matter", "power_auto_matter_fnc", "corr_auto_matter", "cmz_relation", "dndm", "f_halos", "bias_smooth", "halo_bias",
         "power_auto_matter_sh", "power_auto_matter_ss", "power_auto_matter_hh", "mean_density_smooth", "mean_density_halos", "halo_profile_ukm"]
TWATCH = ["tracer_cmz_relation", "power_auto_tracer", "corr_auto_tracer", "mean_tracer_den"]


def run_hist(u, tier, res):
    _, cn, first, depth = u
    cls = CLS[cn]
    base = grid(halo_concentration_model="Duffy08WDM", wdm_mass=3.0, Mmin=11)
    watch = WATCH + (TWATCH + (["projected_corr_gal"] if cn == "proj" else []) if cn != "dm" else [])
    fresh = {}

    def direct(cfg):
        key = repr(sorted(cfg.items(), key=lambda t: t[0]))
        if key not in fresh:
            m = cls(**{**base, **cfg})
            fresh[key] = {q: read(m, q) for q in watch}
        return fresh[key]

    rest = list(range(len(STEPS)))
    if tier == "quick" and cn != "tr":
        rest = rest[first % 3 :: 3]
    for seq in itertools.product(rest, repeat=depth - 1):
        if {7, 8} <= {first, *seq}:
            continue  # the plain relation has no such parameter
        h = cls(**base)
        cfg = {}
        for q in watch:
            read(h, q)
        for n, i in enumerate((first, *seq)):
            step = STEPS[i]
            h.update(**step)
            cfg.update(step)
            if n < depth - 1 and i != first:
                for q in watch:
                    read(h, q)
        res.traces += 1
        res.states += 1
        e = direct(cfg)
        for q in watch:
            res.transitions += 1
            if not same(read(h, q), e[q], rtol=1e-6):
                res.fail(f"hist:{cn}:{q}", f"{q} after updating {[STEPS[i] for i in (first, *seq)]} differs from a model built with the same settings")


def run_unit(u, tier):
    res = Result()
    {"transfer": run_transfer, "conc": run_conc, "power": run_power, "cold": run_cold, "default": run_default, "hist": run_hist}[u[0]](u, tier, res)
    res.sample(str(u))
    return res
