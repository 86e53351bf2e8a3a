"""H04: every component is built from the model's own settings."""

from __future__ import annotations

import copy
import itertools
import warnings

import numpy as np

from ..core import Result
from ..impl import TracerHaloModel, bias, concentration, grid, hod, profiles, same

id = "H04"
level = "model_checking"
technique = (
    "explicit enumeration of the lattice (environment x halo model choice x tracer model choice x parameters "
    "given or not); in every state each component of the real framework is compared with one built directly "
    "from an independent computation of the same settings"
)
level_note = (
    "Complete over the lattice of environments and of all tracer/halo fallback decisions. Profiles use "
    "Planck15 densities and biases z=0 whatever the model says: recorded findings, matched exactly."
)
rule = (
    "state = (cosmology, z, mass definition, sigma_8, n, delta_c, halo/tracer profile and concentration choice "
    "and parameters, occupation, bias) ; transition = one component answer compared ; trace = one model"
)
assumptions = [
    "hmf's MassFunction at z=0, growth factor and mass definitions are taken as given",
    "the component classes themselves are correct (H05, H12, H13, H14)",
]

ENVS = [
    dict(),
    dict(z=1.0),
    dict(cosmo_model="WMAP5", z=0.4),
    dict(cosmo_params={"Om0": 0.4, "H0": 60.0}, sigma_8=0.7, n=0.92, delta_c=1.6),
    dict(mdef_model="SOCritical", z=0.8, sigma_8=0.9, hmf_model="Tinker08"),
    dict(mdef_model="SOMean", mdef_params={"overdensity": 400}, z=0.3, hmf_model="Tinker08"),
    dict(mdef_model="SOVirial", cosmo_model="WMAP7", z=2.0, n=1.02, hmf_model="Tinker08"),
    dict(mdef_model="FOF", hmf_model="Jenkins", delta_c=1.7, z=0.2, lnk_max=5),
]
HP = [("NFW", {}), ("NFW", {"eta_bloat": 0.3}), ("CoredNFW", {}), ("GeneralizedNFW", {"alpha": 0.6}),
      ("GeneralizedNFW", {})]
HC = [("Duffy08", {}), ("Duffy08", {"a": 8.0, "c": 0.2}), ("Bullock01", {"K": 4.0}), ("Ludlow16", {"C": 500}),
      ("Ludlow16Empirical", {})]
TP = [(None, {}), ("same", {}), ("same", "own"), ("Hernquist", {}), ("GeneralizedNFW", {"alpha": 1.3}),
      ("NFW", {"eta_bloat": -0.2})]
TC = [(None, {}), ("same", {}), ("same", "own"), ("Zehavi11", {}), ("Zehavi11", {"b": -0.2}), ("Ludlow16", {"f": 0.05})]
OWN = {"NFW": {"eta_bloat": 0.5}, "CoredNFW": {"eta_bloat": 0.1}, "GeneralizedNFW": {"alpha": 1.4},
       "Duffy08": {"b": -0.15}, "Bullock01": {"K": 2.0}, "Ludlow16": {"f": 0.04}, "Ludlow16Empirical": {"c0_0": 4.0}}
HODS = [("Zehavi05", {}), ("Zheng05", {"M_min": 12.0, "central": True}), ("Spinelli19", {})]
BIAS = [("Tinker10", {}), ("Seljak04Cosmo", {"a1": 0.5}), ("Jing98", {}), ("Tinker10PBSplit", {}), ("SMT01", {"a": 0.8}),
        ("Mo96", {}), ("colossus", {})]

K = np.array([0.01, 0.3, 2.0, 20.0])
R = np.array([0.02, 0.11, 0.5])
SMALL = dict(transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-7, lnk_max=6, dlnk=0.2, rnum=4, rmin=0.5,
             rmax=40, dr_table=0.4)


def bounds(tier):
    return (
        f"{len(ENVS)} environments x "
        + ("all" if tier == "thorough" else "a covering set (each halo choice with each tracer choice) of")
        + f" {len(HP)}x{len(HC)} halo choices x {len(TP)}x{len(TC)} tracer choices (unspecified, same model with and "
        f"without own parameters, other model with and without) ; {len(HODS)} occupations; {len(BIAS)} biases"
    )


def cases(tier):
    if tier == "thorough":
        yield from itertools.product(range(len(HP)), range(len(HC)), range(len(TP)), range(len(TC)))
        return
    seen = set()
    for p, tp in itertools.product(range(len(HP)), range(len(TP))):
        for c, tc in itertools.product(range(len(HC)), range(len(TC))):
            # every (halo profile, tracer profile), (halo conc, tracer conc) and (tracer prof, tracer conc) pair
            if (p + tp + c + tc) % 5 == 0 and (p * 7 + tp * 3 + c * 5 + tc) % 3 == 0:
                k = (p, c, tp, tc)
                if k not in seen:
                    seen.add(k)
                    yield k
    # profile parameters matter to profile-dependent concentrations
    extra = [(3, 3, tp, tc) for tp in range(len(TP)) for tc in (0, 1, 2, 5)] + [(4, 0, tp, 5) for tp in range(len(TP))]
    for k in extra + [(1, 1, tp, tc) for tp in range(len(TP)) for tc in range(len(TC))]:
        if k not in seen:
            seen.add(k)
            yield k


def units(tier):
    n = 4 if tier == "quick" else 12
    return [("env", e, i, n) for e in range(len(ENVS)) for i in range(n)] + [("bias", e) for e in range(len(ENVS))]


class Oracle:
    """Linear theory and mass definition of an environment, computed without halomod."""

    def __init__(self, env):
        from hmf import MassFunction
        from hmf.cosmology.cosmo import Cosmology
        from hmf.cosmology.growth_factor import GrowthFactor
        from hmf.density_field.filters import TopHat
        from hmf.halos import mass_definitions as md

        e = {k: v for k, v in env.items() if k not in ("z",)}
        skip = ("rnum", "rmin", "rmax", "dr_table")
        kw = {k: v for k, v in {**SMALL, **e}.items() if k not in skip}
        mf = MassFunction(z=0.0, **copy.deepcopy(kw))
        self.z = env.get("z", 0.0)
        self.cosmo = mf.cosmo
        self.filt = TopHat(mf.k.copy(), mf.power.copy())
        self.growth = GrowthFactor(cosmo=mf.cosmo)
        self.rho0 = mf.mean_density0
        self.m = mf.m
        self.sigma_8 = env.get("sigma_8", mf.sigma_8)
        self.n = env.get("n", mf.n)
        self.delta_c = env.get("delta_c", 1.686)
        if "mdef_model" in env:
            self.mdef = getattr(md, env["mdef_model"])(**env.get("mdef_params", {}))
        else:
            self.mdef = mf.mdef
        self.hcosmo = Cosmology(cosmo_model=mf.cosmo)
        self.D = float(np.ravel(self.growth.growth_factor(self.z))[0])

    def nu(self, m):
        r = (3 * np.asarray(m) / (4 * np.pi * self.rho0)) ** (1 / 3)
        return (self.delta_c / (self.filt.sigma(np.atleast_1d(r)) * self.D)) ** 2

    def profile(self, name, params, cm, cosmo=None):
        return profiles.Profile._plugins[name](
            cm_relation=cm, mdef=self.mdef, z=self.z, cosmo=cosmo or self.cosmo, nu_fn=self.nu, **params)

    def conc(self, name, params, prof):
        return concentration.CMRelation._plugins[name](
            cosmo=self.hcosmo, filter0=copy.copy(self.filt), growth=self.growth, delta_c=self.delta_c, profile=prof,
            mdef=self.mdef, sigma_8=self.sigma_8, ns=self.n, **params)


def differs(a, b, rtol=2e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=1e-12 * np.max(np.abs(b)), equal_nan=True)


_O = {}


def oracle(e):
    if e not in _O:
        _O[e] = Oracle(ENVS[e])
    return _O[e]


def resolve(choice, halo):
    name, params = choice
    if name is None:
        return halo
    if name == "same":
        return (halo[0], OWN[halo[0]]) if params == "own" else halo
    if name == halo[0] and not params:
        return halo  # choosing the halo's model without parameters means the halo's parameters
    return choice


def run_case(e, case, res):
    from astropy.cosmology import Planck15

    o = oracle(e)
    ip, ic, itp, itc = case
    hp, hc, tp, tc = HP[ip], HC[ic], TP[itp], TC[itc]
    kw = dict(SMALL, **copy.deepcopy(ENVS[e]))
    kw.update(halo_profile_model=hp[0], halo_profile_params=dict(hp[1]), halo_concentration_model=hc[0],
              halo_concentration_params=dict(hc[1]))

    def given(choice, halo):
        n, p = choice
        if n == "same":
            n, p = halo[0], (OWN[halo[0]] if p == "own" else {})
        return n, dict(p)

    tpn, tpp = given(tp, hp)
    tcn, tcp = given(tc, hc)
    hm_, hpar = HODS[(ip + itc) % len(HODS)]
    kw.update(tracer_profile_model=tpn, tracer_profile_params=tpp, tracer_concentration_model=tcn,
              tracer_concentration_params=tcp, hod_model=hm_, hod_params=dict(hpar))
    m = TracerHaloModel(**kw)
    rp, rc = resolve(tp, hp), resolve(tc, hc)
    tag = f"{ENVS[e]} halo={hp},{hc} tracer={tp},{tc}"

    def comp(key, got, want, what):
        res.transitions += 1
        if differs(got, want):
            res.fail(key, f"{what} differs from a directly built one: {np.ravel(got)[:3]} {np.ravel(want)[:3]} ({tag})")

    # concentrations
    inner = o.profile(hp[0], hp[1], None)
    hconc = o.conc(hc[0], hc[1], inner)
    tinner = o.profile(rp[0], rp[1], None)
    # without a tracer concentration model the halo's relation is used as it is
    tconc = hconc if tc[0] is None else o.conc(rc[0], rc[1], tinner)
    comp(f"halo_concentration:{hc[0]}", m.cmz_relation, hconc.cm(o.m, o.z), "cmz_relation")
    comp(f"tracer_concentration:{rc[0]}", m.tracer_cmz_relation, tconc.cm(o.m, o.z), "tracer_cmz_relation")
    for nm, c, model in (("halo", m.halo_concentration, hc), ("tracer", m.tracer_concentration, rc)):
        want = dict(concentration.CMRelation._plugins[model[0]]._defaults, **model[1])
        if type(c).__name__ != model[0] or not same(dict(c.params), want) and dict(c.params) != want:
            res.fail(f"{nm}-conc-params", f"{type(c).__name__} {c.params}, expected {model} ({tag})")
        if not (c.sigma_8 == o.sigma_8 and c.ns == o.n and c.delta_c == o.delta_c and c.mdef == o.mdef
                and abs(c.mean_density0 / o.rho0 - 1) < 1e-9):
            res.fail(f"{nm}-conc-args", f"built with sigma_8={c.sigma_8} n={c.ns} delta_c={c.delta_c} mdef={c.mdef}"
                     f" mean_density0={c.mean_density0} ({tag})")
    # profiles (with the concentration the framework evaluates them at)
    for nm, prof, model, cz, ukm, conc in (
        ("halo", m.halo_profile, hp, m.cmz_relation, m.halo_profile_ukm, hconc),
        ("tracer", m.tracer_profile, rp, m.tracer_cmz_relation, m.tracer_profile_ukm, tconc),
    ):
        want = dict(profiles.Profile._plugins[model[0]]._defaults, **model[1])
        if type(prof).__name__ != model[0] or dict(prof.params) != want:
            res.fail(f"{nm}-profile-params", f"{type(prof).__name__} {prof.params}, expected {model} ({tag})")
        if prof.z != o.z or prof.mdef != o.mdef:
            res.fail(f"{nm}-profile-args", f"profile at z={prof.z} mdef={prof.mdef} ({tag})")
        mm = o.m[::2]
        cc = cz[::2]
        ref, p15 = o.profile(model[0], model[1], conc), o.profile(model[0], model[1], conc, Planck15)
        j = [int(np.argmin(np.abs(m.k - x))) for x in K]
        checks = [
            ("u", lambda p: p.u(K, mm, c=cc)),
            ("rho", lambda p: p.rho(R, mm, c=cc)),
            ("rs", lambda p: p.scale_radius(mm) if nm == "halo" or tp[0] is not None or tc[0] is None else 0.0),
            ("radius", lambda p: p.halo_mass_to_radius(mm, at_z=True)),
        ]
        # (numerical transforms interpolate over the requested k, so ask for the whole grid)
        uk = lambda p: p.u(m.k, o.m, c=cz)[j]  # noqa: E731
        pairs = [(c[0], c[1](prof), c[1](ref), c[1](p15)) for c in checks]
        pairs.append(("ukm", ukm[j], uk(ref), uk(p15)))
        for what, got, w, w15 in pairs:
            res.transitions += 1
            if not differs(got, w):
                continue
            if not differs(got, w15):
                res.fail("profile-cosmo:Planck15", f"{nm} {what} uses Planck15 densities ({tag})")
            else:
                res.fail(f"{nm}-profile:{what}:{model[0]}", f"{what} differs from a directly built profile: "
                         f"{np.ravel(got)[:3]} {np.ravel(w)[:3]} ({tag})")
    # occupation
    h = m.hod
    want = dict(hod.HOD._plugins[hm_]._defaults, **{k: v for k, v in hpar.items() if k != "central"})
    if type(h).__name__ != hm_ or dict(h.params) != want or bool(h._central) != bool(hpar.get("central", False)):
        res.fail("hod-params", f"{type(h).__name__} {h.params} {h._central}, expected {hm_} {hpar}")
    if h.cosmo is not m.cosmo or h.mdef != o.mdef or h.profile is not m.tracer_profile \
            or h.cm_relation is not m.tracer_concentration:
        res.fail("hod-args", f"occupation not built with the model's cosmology, mass definition or tracer parts ({tag})")
    comp("hod-unit", m.mean_tracer_den_unit, m.mean_tracer_den * h.unit_conversion(o.cosmo, o.z), "mean_tracer_den_unit")
    res.states += 1
    res.traces += 1


def run_bias(e, res):
    import colossus.cosmology.cosmology as cc
    from colossus.lss.bias import haloBiasFromNu

    o = oracle(e)
    nu = o.nu(o.m)
    # spectral slope from the mass variance: sigma^2 ~ R^-(n_eff+3)
    for name, params in BIAS:
        model = name
        if name == "colossus":
            model = bias.make_colossus_bias("bhattacharya11")
        m = TracerHaloModel(**dict(SMALL, **copy.deepcopy(ENVS[e])), bias_model=model, bias_params=dict(params))
        got = np.asarray(m.halo_bias, dtype=float)
        res.states += 1
        res.traces += 1
        if differs(m.nu, nu, 1e-5):
            res.fail("nu", f"peak heights differ {m.nu[:3]} {nu[:3]} for {ENVS[e]}")
            continue

        def want(z):
            if name == "colossus":
                cc.setCurrent(cc.fromAstropy(o.cosmo, sigma8=o.sigma_8, ns=o.n, cosmo_name="r", persistence=""))
                return haloBiasFromNu(nu=np.sqrt(nu), z=z, mdef="200m", model="bhattacharya11")
            return bias.Bias._plugins[name](
                nu=nu.copy(), delta_c=o.delta_c, m=o.m.copy(), mstar=m.mass_nonlinear,
                delta_halo=o.mdef.halo_overdensity_mean(o.z, o.cosmo), n=o.n, sigma_8=o.sigma_8, cosmo=o.cosmo,
                n_eff=m.n_eff, z=z, **params).bias()

        res.transitions += 1
        if not differs(got, want(o.z), 1e-5):
            continue
        if o.z and not differs(got, want(0.0), 1e-5):
            res.fail("bias-z:z=0", f"{name} bias at z={o.z} is evaluated at z=0")
        else:
            res.fail(f"bias:{name}", f"halo_bias {got[:3]} is not {want(o.z)[:3]} for {ENVS[e]}")
        if "mstar" in vars(m.bias) and abs(m.bias.mstar / m.mass_nonlinear - 1) > 1e-12:
            res.fail("bias-mstar", "mstar")


def run_unit(unit, tier):
    warnings.simplefilter("ignore")
    res = Result()
    if unit[0] == "bias":
        run_bias(unit[1], res)
        return res
    _, e, i, n = unit
    for j, case in enumerate(cases(tier)):
        if j % n == i:
            run_case(e, case, res)
            res.sample({"env": ENVS[e], "case": case})
    return res
