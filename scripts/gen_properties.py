"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib

P = []
S = "src/halomod/"


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            "mechanism": [dict(name=a, where=S + b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("H01", "Every quantity always reflects the model's current parameters",
     "After any sequence of parameter changes, quantity reads, clones and rejected updates, every quantity a dark-matter or tracer halo model reports equals what a newly built model with the same current parameter values reports. The parameter values themselves equal what the sequence of accepted changes says (changes to parameter dictionaries merge, an empty dictionary resets).",
     ["histories"], "all bounded histories over an alphabet of parameter changes covering every parameter of the model, interleaved with reads of every quantity, in every order, through updates, clones and direct assignment",
     "The tests change one or two parameters once and look at one or two quantities; staleness needs a specific order of read, change, change and read over ~60 parameters and ~145 quantities.",
     ["halo_model.py", "profiles.py", "hod.py"],
     [("parameter / cached_quantity declarations and their kinds", "halo_model.py DMHaloModel, TracerHaloModel"), ("TracerHaloModel.update", "halo_model.py")],
     [("cached quantities", "memoised values and the parameter->quantity index", "halo_model.py")],
     ["every public quantity of DMHaloModel and TracerHaloModel", "parameter_values"])

prop("H02", "Derived and composite models stay in step with their parts",
     "Projected, angular, warm-dark-matter and two-tracer cross-correlation models report, after any sequence of changes to their own parameters or to the parameters of the models they are composed of, the same quantities as a newly built model with the same current parameters. A quantity read earlier never survives a change that affects it.",
     ["histories"], "all bounded histories of reads and changes over the derived and composite models' own parameters and over the parameters of the sub-models",
     "The tests build each composite model once; only update histories that cross the boundary between the composite model and its parts can expose stale quantities.",
     ["cross_correlations.py", "integrate_corr.py", "wdm.py", "halo_model.py"],
     [("sub-framework indexing", "cross_correlations.py CrossCorrelations"), ("cached quantities of ProjectedCF, AngularCF, HaloModelWDM", "integrate_corr.py, wdm.py")],
     [("sub-models", "the two halo models owned by a cross-correlation model", "cross_correlations.py")],
     ["quantities of CrossCorrelations, ProjectedCF, AngularCF, ProjectedCFWDM and HaloModelWDM"])

prop("H03", "Models never influence each other, their caller's data or shared state",
     "Building, updating, cloning or evaluating one model never changes what another existing model, a component, or a later-built model reports, and never modifies the arguments the user passed or the documented default settings of any component. A clone is independent of its original in both directions.",
     ["histories"], "all bounded interleavings of build / read / update / clone on two or three models that differ in cosmology, components and parameters, with shared argument dictionaries and arrays",
     "Every test builds its model in isolation; interference needs two live models and a specific interleaving, often with different cosmologies.",
     ["halo_model.py", "concentration.py", "bias.py", "wdm.py", "hod.py", "profiles.py", "cross_correlations.py"],
     [("parameter setters", "halo_model.py"), ("adaptors to third-party cosmology state", "concentration.py make_colossus_cm; bias.py make_colossus_bias"), ("class-level defaults", "wdm.py CMRelationWDMRescaled")],
     [("class defaults", "the _defaults dictionaries", "all components"), ("process-wide cosmology", "global cosmology of the third-party library", "concentration.py, bias.py")],
     ["quantities of every live model", "argument dictionaries", "component defaults"])

prop("H04", "Every component is built from the model's own settings",
     "The profile, concentration, bias, occupation and exclusion components of a model always use that model's cosmology, redshift, mass definition, overdensity and component parameters. Tracer profile and concentration fall back to the halo ones when unspecified, inherit the halo parameters when the same model is chosen without parameters, and use only their own otherwise.",
     ["configurations"], "all combinations of halo and tracer component choices, presence or absence of their parameters, cosmologies, redshifts and mass definitions in a bounded lattice",
     "The tests use one cosmology, one redshift and mostly default components, where a component built from the wrong settings is indistinguishable.",
     ["halo_model.py", "profiles.py", "concentration.py", "bias.py"],
     [("component construction", "halo_model.py bias, halo_concentration, halo_profile, tracer_concentration, tracer_profile, hod")],
     (), ["component attributes", "component outputs compared with directly built components"])

prop("H05", "Halo occupation models obey their occupation and pair-count laws",
     "Each occupation model returns the mean central, satellite and total occupation of its published form, never NaN or negative, at every mass including exactly at and just around its cut-offs. Enforcing the central condition multiplies satellites by the mean number of centrals unless the model has it built in, and the pair counts, standard deviations and per-source counts follow from the means as documented (Poisson satellites, uncorrelated centrals unless the condition is enforced).",
     ["inputs", "configurations"], "all occupation models, the central condition on and off, a lattice of their parameters, and masses spanning 6 decades plus every cut-off and its floating-point neighbours",
     "The tests evaluate a few models at default parameters over one mass grid and rarely near cut-offs or with the central condition enforced.",
     ["hod.py"], [("occupation functions", "hod.py"), ("central condition", "hod.py HOD.satellite_occupation, HODPoisson.cs_pairs")],
     (), ["outputs of every occupation model"])

prop("H06", "A requested tracer density fixes the minimum mass that delivers it",
     "When a tracer density is given, the minimum halo mass is chosen so that the model's mean tracer density equals the requested one, at construction, after any later update, and in clones, whatever else is updated with it. Giving a minimum mass explicitly releases the request, other occupation parameters are kept, and densities that are too high to be reached are rejected rather than silently missed.",
     ["histories", "inputs"], "all occupation models with a minimum-mass parameter, a lattice of reachable and unreachable densities, and all bounded histories of density / minimum-mass / other updates",
     "One test covers one model and one density at construction; the sharp cut-off route and update histories are not exercised.",
     ["halo_model.py", "hod.py"], [("minimum-mass search", "halo_model.py TracerHaloModel._find_m_min, update, __init__")],
     [("tracer_density / M_min", "requested density and the derived minimum mass", "halo_model.py")], ["mean_tracer_den", "hod_params"])

prop("H07", "Tracer averages are the occupation-weighted mass-function integrals",
     "The mean tracer density, effective bias, effective host mass, satellite and central fractions equal the integrals of the occupation over the halo mass function, starting at the sharp occupation cut-off when the central condition applies, even when the cut-off falls between mass bins. The two fractions add up to one, the normalised averages do not depend on the tracer's normalisation, and matter averages are normalised to the density in haloes.",
     ["configurations", "inputs"], "all occupation models with and without central condition, a lattice of minimum masses placed on, just below, just above and between mass bins, redshifts, mass ranges and resolutions",
     "The regression tests look at single default models with loose tolerances; cut-offs relative to the mass grid and marked tracers are not varied.",
     ["halo_model.py", "tools.py", "hod.py"], [("integrals", "halo_model.py mean_tracer_den, bias_effective_tracer, mass_effective, satellite_fraction; tools.py spline_integral")],
     (), ["mean_tracer_den", "bias_effective_tracer", "mass_effective", "satellite_fraction", "central_fraction", "bias_effective_matter"])

prop("H08", "One-halo terms are pair-weighted integrals over halo profiles",
     "The one-halo power spectra of matter, of the tracer (central-satellite and satellite-satellite) and of the tracer-matter cross equal the mass integral of the corresponding pair counts times the normalised profiles, divided by the squared mean densities. Suppressing the one-halo term on large scales only removes haloes smaller than the corresponding scale, and switching it off restores the plain integral.",
     ["configurations", "inputs"], "all wavenumbers and separations of the grid, over a lattice of occupation models, profiles, central condition, cut-offs relative to the mass grid, redshift and suppression switch",
     "The regression data compare scalars only; the scale dependence of these spectra is not pinned for any non-default combination.",
     ["halo_model.py", "tools.py"], [("one-halo integrals", "halo_model.py _do_1halo_integral, power_1h_*, corr_1h_*")],
     (), ["power_1h_auto_matter", "power_1h_cs_auto_tracer", "power_1h_ss_auto_tracer", "power_1h_cross_tracer_matter", "corr_1h_*"])

prop("H09", "Two-halo terms are effective-bias-squared times halo-centre power",
     "Without exclusion or scale-dependent bias, every two-halo spectrum equals the halo-centre power spectrum times the product of the two profile-weighted effective biases; on the largest scales it equals bias squared times linear power for the tracer, bias times linear power for the cross term and exactly linear power for matter when unit matter bias is enforced. The chosen halo-centre spectrum (linear, nonlinear, filtered) is the one used, and the power of haloes in a given mass range is biased by exactly those haloes.",
     ["configurations", "inputs"], "all wavenumbers over a lattice of bias models, mass functions, occupation models, halo-centre spectra, normalisation switch and redshift",
     "Tests check one large-scale limit for default components; spectra for other components, spectra choices and switches are only regression-sampled.",
     ["halo_model.py", "halo_exclusion.py", "tools.py"], [("two-halo integrals", "halo_model.py _get_power_2h_primitive, power_2h_*, power_hh, _power_halo_centres_fnc")],
     (), ["power_2h_auto_matter", "power_2h_auto_tracer", "power_2h_cross_tracer_matter", "power_hh"])

prop("H10", "Totals are the sums of their parts and real and Fourier space agree",
     "Every total power spectrum is the sum of its one- and two-halo terms and every total correlation function the sum of its terms, with one common convention so that correlations vanish at large separation; the one-halo tracer terms split into central-satellite and satellite-satellite parts. Each correlation function is the Fourier transform of the matching power spectrum, evaluated at exactly the requested separations, and each quantity equals its callable version at the model's grid.",
     ["configurations", "inputs"], "all matter, tracer and cross statistics over a lattice of profiles (with and without analytic self-convolution), occupation models, central condition, separation grids (log, linear, explicit) and switches",
     "Tests compare a few pairs for the default profile; the additive convention differs between code paths chosen by profile type.",
     ["halo_model.py", "tools.py", "cross_correlations.py"], [("sums and transforms", "halo_model.py *_fnc; tools.py _SumCallable, hankel_transform")],
     (), ["power_* and corr_* quantities"])

prop("H11", "Halo exclusion removes exactly the overlapping halo pairs",
     "For every exclusion model the two-halo integral at a separation equals the double sum over halo pairs weighted by that model's probability that the two haloes do not overlap, with each pair counted once per ordering, including the lower mass limit, scale-dependent bias and the compiled variants, which agree with their plain counterparts. Exclusion never adds pairs, vanishes at large separation, and reduces to no exclusion there.",
     ["inputs", "configurations"], "all exclusion models, small mass grids, separations covering full exclusion to none, one- and two-dimensional bias, presence of a lower mass limit, and every parameter of the models in a lattice",
     "Tests compare a couple of variants at one set of inputs; the integrals' limits and index handling are not compared with brute force.",
     ["halo_exclusion.py"], [("exclusion integrals", "halo_exclusion.py Sphere, DblSphere, DblEllipsoid, NgMatched and compiled variants")],
     (), ["integrate()", "density_mod"])

prop("H12", "Halo profiles conserve mass and agree across real and Fourier space",
     "For every profile, the density integrates to the halo mass inside the virial radius, the cumulative distribution rises from zero to one and is the integral of the density, the Fourier profile is the transform of the density and tends to one at small wavenumber, and the self-convolution is the convolution of the density with itself. The answers are consistent for every combination of scalar, vector and matrix arguments, coordinates, normalisation, redshift, mass definition and explicitly given concentration.",
     ["inputs", "configurations"], "all profiles and a lattice of their parameters, concentrations, masses, redshifts, mass definitions, and all argument-shape combinations",
     "Tests check a few identities for a subset of profiles at one redshift and one shape.",
     ["profiles.py"], [("profile functions", "profiles.py Profile, ProfileInf and subclasses")],
     (), ["rho, u, cdf, lam, virial_velocity, scale radius and conversions of every profile"])

prop("H13", "Concentration relations follow their published forms",
     "Every concentration-mass relation returns finite concentrations of its published form for all masses, redshifts and parameters, uses the mass definition it was calibrated for and warns when used with another, and inverts consistently where an inverse is offered. Truncated variants agree with the untruncated relation where they do not apply, and relations depend on redshift only through the redshift they are asked for.",
     ["inputs", "configurations"], "all concentration relations over a lattice of masses, redshifts, mass definitions, cosmologies and parameters",
     "Tests check monotonicity and one or two reference values.",
     ["concentration.py"], [("concentration relations", "concentration.py")],
     (), ["cm()"])

prop("H14", "Halo bias models follow their published forms",
     "Every bias model returns the published function of peak height (and its other inputs) with the given parameters, is evaluated with the model's own peak heights, cosmology, redshift and overdensity, and is positive and increasing at high mass where its form is. Every bias model can be used in a halo model and pairs with the mass function it was derived with.",
     ["inputs", "configurations"], "all bias models over a lattice of peak heights, overdensities, redshifts, cosmologies and parameter changes",
     "The bias tests iterate an empty registry and therefore check no model's values.",
     ["bias.py", "halo_model.py"], [("bias formulae", "bias.py")],
     (), ["bias()", "halo_bias"])

prop("H15", "Interpolators, integrators and transforms are exact in their domain",
     "The extended interpolator returns its data at its nodes, uses exactly the requested extrapolation below and above (zero, constant, power law of either sign, matched function) and treats scalars, integer and array arguments alike; the spline integrator integrates between exactly the given limits, in linear or logarithmic coordinates. The power-correlation transforms are linear, mutually inverse and exact for known transform pairs.",
     ["inputs", "configurations"], "all combinations of extrapolation choices on both sides, matching, data signs, argument kinds and positions relative to the data; integration limits inside, on and outside the grid including zero; known transform pairs over a range of scales",
     "Tests use single positive examples of each.",
     ["tools.py"], [("ExtendedSpline, spline_integral, hankel_transform, power_to_corr*", "tools.py")],
     (), ["ExtendedSpline.__call__", "spline_integral", "hankel_transform", "power_to_corr", "power_to_corr_ogata", "corr_to_power_ogata"])

prop("H16", "Populated catalogues obey the occupation model for every random outcome",
     "For every outcome of the random draws, a populated catalogue lists the centrals first, one at the exact centre of each halo that drew a central, followed by the drawn number of satellites of each halo, each correctly labelled with its host and lying inside the host's virial radius (or wrapped into the periodic box); with the central condition, haloes without a central get no satellites. The draws are made with the model's mean counts per halo, and satellite radii follow the tracer's profile.",
     ["inputs", "configurations", "fault_sequences"], "all outcomes of the central and satellite draws for small halo lists, satellite position draws on an exhaustive lattice, all central-condition and box-edge conventions",
     "The one test draws a single random catalogue and checks averages.",
     ["tools.py", "profiles.py", "hod.py"], [("populate", "tools.py populate; profiles.py Profile.populate")],
     (), ["populate() return values"])

prop("H17", "Projected correlation functions are line-of-sight integrals",
     "The projected correlation function at every projected separation equals twice the integral of the tracer correlation along the line of sight to the projection limit, which is the requested one or the documented default, for every specification of the projected separations. It scales linearly with the correlation function and does not depend on the internal grid beyond its resolution.",
     ["configurations", "inputs"], "a lattice of projected separations (range, explicit array), projection limits, known correlation functions and model settings",
     "Tests check a single projected function and a shape.",
     ["integrate_corr.py"], [("line-of-sight integral", "integrate_corr.py ProjectedCF, projected_corr_gal")],
     (), ["projected_corr_gal", "rp", "rlim"])

prop("H18", "Angular correlation functions are Limber projections",
     "The angular correlation function equals the Limber integral of the correlation function over the normalised redshift (or distance) distributions, for redshift and distance parametrisations alike, at exactly the requested angles in radians. Distributions are normalised before use, equal samples and a missing second sample agree, and uniform distributions integrate to one.",
     ["configurations", "inputs"], "a lattice of angle specifications, redshift ranges, one or two distributions in redshift or distance form, and known correlation functions",
     "Tests compare a single configuration against a published curve.",
     ["integrate_corr.py"], [("Limber integral", "integrate_corr.py AngularCF, angular_corr_gal, flat_z_dist")],
     (), ["angular_corr_gal", "angular_corr_matter", "theta", "xvec"])

prop("H19", "Cross-correlations combine the two tracers consistently",
     "The cross power and correlation of two tracer populations equal the sums of their one- and two-halo terms built from each tracer's own occupation, profile and mean density; swapping the two tracers does not change them, and crossing a tracer with an identical, fully correlated copy of itself reproduces the pair counts of the chosen cross-occupation model. The cross-occupation models' pair counts follow from the two occupations and the stated correlation of their centrals and satellites.",
     ["configurations", "inputs"], "all cross-occupation models and their parameters over pairs of tracers from a lattice of occupation models, central conditions, profiles and minimum masses",
     "Tests check one cross-occupation model against an auto-correlation.",
     ["cross_correlations.py"], [("cross terms", "cross_correlations.py CrossCorrelations, HODCross subclasses")],
     (), ["power_1h_cross, power_2h_cross, power_cross, corr_cross", "pair functions"])

prop("H20", "Warm dark matter changes only what it should",
     "A warm-dark-matter halo model uses the warm transfer function, the warm halo statistics and the rescaled concentrations of its chosen models, and tends to the corresponding cold model as the particle mass grows. Matter power is the documented combination of smooth and clumped parts, with the clumped fraction given by the mass in haloes.",
     ["configurations", "histories"], "a lattice of particle masses, warm-dark-matter and concentration models, redshifts and parameter changes",
     "Tests only check that the fluctuations decrease and that the models can be built.",
     ["wdm.py", "concentration.py"], [("warm halo model", "wdm.py HaloModelWDM, CMRelationWDMRescaled")],
     (), ["power_auto_matter", "cmz_relation", "dndm", "f_halos"])

prop("H21", "Batch and command-line runs equal direct calculations",
     "Iterating over lists of parameters yields every requested combination exactly once, labelled with its own parameters, with the same quantities as directly built models; the command-line tool writes for every requested quantity and combination exactly the values the library computes for the effective configuration, together with a configuration that reproduces them.",
     ["configurations", "programs"], "all combinations of short parameter lists, requested quantities, configuration files and command-line overrides in a bounded set",
     "The command-line tests check one default run; the batch helper is not run over parameter lists.",
     ["functional.py", "_cli.py"], [("get_halomodel", "functional.py"), ("run", "_cli.py")],
     (), ["yielded models and labels", "files written by the command-line tool"])

prop("H22", "Every advertised model can be selected and used end to end",
     "Every component model the package offers, selected by name or by class, builds with its defaults inside a halo model and gives finite statistics of the documented shape, non-negative where they are densities or occupations. Unknown models and unknown parameters are rejected with an error, never ignored.",
     ["configurations"], "all registered models of every component kind, one at a time and in pairs of kinds, selected by name and by class, with every parameter of every model perturbed",
     "Tests cover part of the models individually; some models are never built inside a halo model.",
     ["halo_model.py", "profiles.py", "concentration.py", "bias.py", "hod.py", "halo_exclusion.py", "wdm.py", "cross_correlations.py"],
     [("registries", "all component modules")], (), ["all quantities"])

prop("H23", "Scale-dependent bias modifies the two-halo term as published",
     "A scale-dependent bias model returns its published correction as a function of the nonlinear matter correlation and its parameters, and the two-halo correlation at each separation is built with the bias multiplied by the correction at that separation. Without a scale-dependent model, or where the correction is one, the plain two-halo term is recovered.",
     ["configurations", "inputs"], "all scale-dependent bias models, a lattice of correlation values and parameters, with and without exclusion, for matter and tracers",
     "No test looks at the values.",
     ["bias.py", "halo_model.py", "halo_exclusion.py"], [("scale-dependent bias", "bias.py ScaleDepBias subclasses; halo_model.py sd_bias, _tracer_exclusion")],
     (), ["sd_bias_correction", "corr_2h_auto_tracer", "power_2h_auto_tracer"])

prop("H24", "Unsupported settings are refused, doubtful ones are warned about",
     "Settings, component parameters and calls that are not supported (unknown models or parameters, empty or reversed ranges, occupations above the mass range, unknown normalisations or coordinates) raise an error however they are set, and supported ones right up to the limits are accepted. Settings whose results are only approximate or need renormalising (mass functions and biases that are not a pair, mass definitions without a calibration, masses, separations or redshifts outside the tabulated range) give a warning exactly when that is so.",
     ["configurations", "inputs"], "every validated setting at values inside, at and outside its limits, by constructor, update, direct assignment and clone, for all frameworks; all profile, correlation-table and selection-function calls",
     "The tests try a few bad values on one route; limits are crossed by values next to them.",
     ["halo_model.py", "integrate_corr.py", "profiles.py", "tools.py", "concentration.py", "bias.py", "hod.py", "cross_correlations.py", "wdm.py"], [("validation", "halo_model.py validate, parameter setters; integrate_corr.py setters; tools.py norm_warn, ExtendedSpline; profiles.py norm/coord checks")],
     (), ["TracerHaloModel(...)", "update", "clone", "warnings"])

prop("H25", "A value belongs to its scale, mass or angle, not to the grid it was asked for on",
     "The value of every spectrum, correlation, profile, occupation, concentration and bias at a given scale, mass or angle is the same whichever output grid (r, k_hm, theta, rp and their settings, of either model in a cross-correlation) the framework has been given, whichever other points are asked for in the same call, in whichever order or shape; the tabulated arrays are the functions' values on the grid; masses common to two mass grids carry the same values; and the totals converge: refining or extending the internal mass, wavenumber and separation tables moves them by no more than a few per cent.",
     ["configurations", "inputs"], "all frameworks, all exclusion and scale-dependent-bias combinations in the lattice, all listed output grids, every ordered selection of the probe points, all registered components",
     "Tests evaluate each quantity on one grid; nothing compares the same scale on two.",
     ["halo_model.py", "integrate_corr.py", "profiles.py", "tools.py", "concentration.py", "bias.py", "hod.py", "cross_correlations.py", "wdm.py"], [("grids", "halo_model.py r, k_hm, _r_table, every *_fnc; integrate_corr.py rp, theta, r; tools.py ExtendedSpline, hankel_transform")],
     (), ["TracerHaloModel(rmin=..., hm_logk_min=...)", "*_fnc(r or k)", "AngularCF", "ProjectedCF", "CrossCorrelations"])


out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P))
