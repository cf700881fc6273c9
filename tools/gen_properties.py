#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the long texts stay readable)."""
import json, pathlib
P = []
C = "src/rt1_model/_calc.py"; SC = "src/rt1_model/_scatter.py"; SU = "src/rt1_model/surface.py"
VO = "src/rt1_model/volume.py"; HE = "src/rt1_model/helpers.py"; PL = "src/rt1_model/plot.py"; IN = "src/rt1_model/__init__.py"
def p(id, title, statement, over, q, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
cfg = "all zenith angles in [0, 90) degrees, all azimuth angles, all admissible parameter values (scalars or broadcastable arrays), all phase functions and BRDFs"
p("C01", "Surface contribution equals its closed form",
  "In linear intensity units the surface contribution equals I0*cos(theta_0)*NormBRDF*BRDF(theta_0,theta_ex,phi_0,phi_ex)*[(1-bsf)*exp(-tau/cos(theta_0)-tau/cos(theta_ex)) + bsf] at every element, where the BRDF is evaluated at the set geometry and the current parameter values. It does not depend on the single scattering albedo or on the volume phase function.",
  ["inputs", "configurations"], cfg,
  "Tests evaluate the surface term at one or two angles and only compare it with parts of itself (Itot = sum, >= 0); one value (tau=0, isotropic) is compared with a reference, with a tolerance of 15.",
  [C], [("surface contribution", C+" RT1.surface/_surface"), ("BRDF evaluation", SC+" _Scatter.calc")], ["RT1.surface()", "RT1.calc()[1]"])
p("C02", "Volume contribution equals its closed form",
  "In linear intensity units the volume contribution equals (1-bsf)*I0*omega*cos(theta_0)/(cos(theta_0)+cos(theta_ex))*(1-exp(-tau/cos(theta_0)-tau/cos(theta_ex)))*p(theta_0,theta_ex,phi_0,phi_ex) at every element, with p the volume phase function at the set geometry and current parameter values. It does not depend on the BRDF or its normalization.",
  ["inputs", "configurations"], cfg,
  "No test compares a non-zero volume contribution with a reference value; the formula is only run.",
  [C], [("volume contribution", C+" RT1.volume/_volume"), ("phase function evaluation", SC+" _Scatter.calc")], ["RT1.volume()", "RT1.calc()[2]"])
p("C03", "Interaction contribution equals the first-order solution",
  "In linear intensity units the interaction contribution equals NormBRDF*(1-bsf)*I0*omega*cos(theta_0)*[exp(-tau/cos(theta_ex))*F(in->ex) + exp(-tau/cos(theta_0))*F(ex->in)], where F(in->ex) is the sum over n of f_n(in,ex) times the integral over mu in (0,1) of mu^(n+1)*(exp(-tau/mu_in)-exp(-tau/mu))/(mu_in-mu), and F(ex->in) is the same with the two directions exchanged. This holds for tau > 0 and zenith angles strictly between 0 and 90 degrees, with all other factors and coefficients taken at the current geometry and parameters.",
  ["inputs", "configurations"], "all geometries with 0 < cos < 1, tau > 0, all parameter values, any number of expansion coefficients",
  "Tests compare the coefficients f_n for two phase-function pairs but never a value of the interaction contribution with the integral it represents; the exponential-integral closed form and the exchange of directions are not compared with anything.",
  [C], [("composition", C+" RT1._interaction"), ("radial integral", C+" RT1._S2_mu/_calc_Fint_1/_calc_Fint_2")], ["RT1.interaction()", "RT1.calc()[3]"])
p("C04", "Interaction coefficients represent the azimuth integral",
  "For any numbers of expansion coefficients, the coefficients f_n used for the interaction contribution satisfy: the sum over n of f_n(theta_0,phi_0,theta_ex,phi_ex)*cos(theta)^n equals the integral over phi in (0,2 pi) of p(pi-theta_0,theta,phi_0,phi)*BRDF(theta,theta_ex,phi,phi_ex), for every theta in (0, pi/2), with p and BRDF the truncated Legendre expansions. There is one coefficient for each power of cos(theta) that occurs.",
  ["inputs", "configurations", "programs"], "all pairs of surface and volume distributions (any ncoefs, any scattering-angle weights a with a[1], a[2] arbitrary), all angles and parameters",
  "Tests check the coefficients for isotropic/Rayleigh/one cosine-lobe pairs at one geometry, in monostatic mode only; the symbolic integration and coefficient extraction must hold for every ncoefs and every expansion.",
  [C, SC], [("expansion of the product", C+" RT1._calc_interaction_expansion"), ("azimuth integration", C+" RT1._integrate_0_2pi_phis/_cosintegral"), ("coefficient extraction", C+" RT1._extract_coefficients"), ("compilation", C+" RT1._fnevals")], ["RT1.interaction()", "the fn-coefficients"])
p("C05", "Full evaluation is consistent with the single contributions",
  "The full model evaluation returns total, surface, volume and interaction in this order (no interaction entry if the interaction term is disabled), with each contribution equal to what its individual evaluation returns (where tau > 0) and, in linear units, total equal to the sum of the returned contributions at every element. Contributions of different broadcastable shapes are broadcast against each other.",
  ["inputs", "configurations"], "all configurations of interaction on/off, units, parameter kinds (numbers, arrays, expressions), geometries",
  "Tests check Itot = sum at single elements with the interaction enabled, scalar parameters and one V/SRF pair.",
  [C], [("assembly of the contributions", C+" RT1.calc")], ["RT1.calc()"])
p("C06", "Unit conversions are exact and uniform",
  "Sigma0 results equal intensity results times 4*pi*cos(theta_0)/I0, and dB results equal 10*log10 of the linear results, for the total and every contribution and for both the individual and the full evaluation. Consequently sigma0 results do not depend on I0.",
  ["inputs", "configurations"], "all four unit settings, all I0 > 0, all geometries and parameters",
  "Tests only compare dB totals with dB contributions inside one unit setting; sigma0 is never related to intensity and I0 is never set.",
  [C], [("conversion", C+" RT1._convert_sig0_db")], ["RT1.calc()", "RT1.surface()", "RT1.volume()", "RT1.interaction()"])
p("C07", "Limiting cases: no canopy, bare soil, no scattering",
  "Where tau is 0 the full evaluation returns exactly zero (linear) volume and interaction contributions and the unattenuated surface contribution, for scalar tau and for each zero element of an array tau, leaving all other elements unaffected. With bsf = 1 the total equals the bare-surface contribution, with omega = 0 volume and interaction vanish, and with NormBRDF = 0 surface and interaction vanish (tau > 0).",
  ["inputs", "configurations"], "all geometries and parameters, scalar and array tau with any pattern of zeros",
  "Tests check tau=0 for one scalar configuration; mixed zero/non-zero arrays, bsf and the other limits are never run.",
  [C], [("no-canopy handling", C+" RT1.calc"), ("closed forms", C+" RT1._surface/_volume/_interaction")], ["RT1.calc()"])
p("C08", "Jacobian is exact for tau, omega, NormBRDF and bsf",
  "Each entry of the Jacobian for 'tau', 'omega', 'NormBRDF' or 'bsf' equals the partial derivative of the total without interaction (surface + volume) with respect to that quantity, expressed in the selected units (intensity or sigma0, linear or dB). Entries follow the order of the requested parameter list.",
  ["inputs", "configurations"], "all geometries incl. bistatic with theta_0 != theta_ex, all I0, all parameter values, all four unit settings, any parameter list",
  "No test evaluates the Jacobian directly; the notebooks use it inside a least-squares fit, which converges with approximate gradients too.",
  [C], [("partial derivatives", C+" RT1._dvolume_d*/_dsurface_d*"), ("unit factors and assembly", C+" RT1.jacobian")], ["RT1.jacobian()"])
p("C09", "Jacobian follows the chain rule for any other parameter",
  "For any other parameter the Jacobian entry equals the total derivative of surface + volume (in the selected units) with respect to that parameter, through every place where it occurs: the expressions given for tau, omega, NormBRDF and bsf (one or several of them) and the scattering distribution functions.",
  ["inputs", "configurations"], "all parameters and all combinations of places where the parameter occurs; all geometries and values",
  "No test evaluates the Jacobian of a parameter used inside an expression; the one notebook that does only needs the fit to converge.",
  [C], [("chain rule", C+" RT1._d_volume_ddummy/_d_surface_ddummy"), ("inner derivatives", C+" RT1._dparam_ddummy*/_d_volume_dummy_lambda/_d_surface_dummy_lambda")], ["RT1.jacobian()"])
p("C10", "Least-squares Jacobian has the layout scipy expects",
  "With the least-squares output format, the Jacobian is a matrix with one row per measurement (row-major order of the result) and, in parameter-list order, one column per scalar parameter holding its derivative for every measurement, and one column per element of a timeseries parameter holding its derivative in the measurements of that timestamp and zero elsewhere.",
  ["inputs", "configurations"], "all parameter lists mixing static and timeseries parameters, any number of timestamps and measurements per timestamp",
  "Only exercised through fits in notebooks, which do not compare the matrix with anything.",
  [C], [("assembly of the sparse matrix", C+" RT1.jacobian")], ["RT1.jacobian(format='scipy_least_squares')"])
p("C11", "Model quantities resolve to the current parameter values",
  "tau, omega, NormBRDF and bsf evaluate to the number assigned, or to the assigned expression evaluated at the most recently set values of exactly the parameters it names; values passed to an evaluation are kept for later ones, others are untouched, and bsf defaults to 0. A full evaluation with a required value missing raises a TypeError naming it.",
  ["inputs", "histories"], "all expressions, all parameter names and values, all sequences of updates",
  "Tests use plain names ('tau', 'x') and one-shot evaluations; the error path and sequences of updates are not tested.",
  [C, HE], [("expression evaluation", C+" RT1._eval_param/_get_param_funcs/_get_param_symbs"), ("parameter updates", C+" RT1.update_params"), ("parsing", HE+" _parse_sympy_param")], ["RT1.tau, omega, NormBRDF, bsf", "RT1.param_dict", "RT1.calc()"],
  [("param_dict", "current parameter values", C+" RT1._param_dict")])
p("C12", "Results depend only on the current configuration, not on history",
  "After any sequence of evaluations and configuration changes (geometry, parameter values and names, expressions for tau/omega/NormBRDF/bsf, unit and interaction switches), every result equals the one of a freshly created model with the same current configuration. No cached intermediate (cosines, their powers, compiled expressions, coefficients, derivatives) is used after something it depends on has changed.",
  ["histories", "configurations"], "all finite sequences of public configuration and evaluation calls",
  "Tests build a new model for each configuration and evaluate it once or twice; stale caches only show in longer sequences.",
  [C], [("cache invalidation", C+" RT1._clear_cache/_clear_param_cache/_clear_geom_cache, setters, set_geometry/set_monostatic/set_bistatic/update_params"), ("caches", C+" lru_cache properties and methods, _fn_/_fnevals_")], ["RT1.calc()", "RT1.jacobian()"],
  [("cached cosines", "cos of the zenith angles and their powers", C+" _mu_0,_mu_ex,_mu_0_x,_mu_ex_x"), ("cached functions", "compiled expressions", C+" _get_param_funcs,_get_param_symbs,_d_*_dummy_lambda,_fn_,_fnevals_")])
p("C13", "Geometry rules are enforced",
  "In monostatic mode the exit direction is always theta_ex = theta_0, phi_ex = phi_0 + pi, whatever was set before, and setting exit angles raises an error; in bistatic mode the four angles are the ones set. A fixed angle cannot be changed by setting the geometry, unknown angle names and None are rejected, angles not mentioned in a call keep their values, and switching the mode forgets which angles were fixed.",
  ["inputs", "histories"], "all sequences of set_monostatic/set_bistatic/set_geometry calls with all argument combinations",
  "Tests check one monostatic setup and one rejected call.",
  [C], [("geometry setters", C+" RT1.set_monostatic/set_bistatic/set_geometry/_sanitize_geometry_parameter"), ("angle properties", C+" RT1.t_0/p_0/t_ex/p_ex")], ["RT1.t_0, p_0, t_ex, p_ex", "errors raised"],
  [("fixed angles", "names of the angles that must not change", C+" RT1._fixed_angles")])
p("C14", "Equivalent geometry specifications give equal results",
  "Fixing angles when selecting the geometry is only a speed-up: every contribution equals the one obtained by setting the same angles dynamically. Bistatic evaluation at theta_ex = theta_0, phi_ex = phi_0 + pi equals the monostatic evaluation.",
  ["inputs", "configurations"], "all subsets of fixed angles, all angle values, all distributions (including azimuthally asymmetric a)",
  "Tests run all 16 subsets of fixed angles but compare each only with itself, for an isotropic surface, where the interaction does not depend on the exit azimuth.",
  [C], [("symbolic geometry", C+" RT1.set_monostatic/set_bistatic/_geom_ang_symbs/_calc_interaction_expansion"), ("exchange of directions", C+" RT1._calc_Fint_1/_calc_Fint_2")], ["RT1.calc()"])
p("C15", "Volume phase functions have their documented form and norm",
  "Each predefined volume phase function (Isotropic, Rayleigh, Henyey-Greenstein, HG-Rayleigh) evaluates to its published formula in the cosine of the generalized scattering angle a0*cos(t0)cos(tex)+sin(t0)sin(tex)*[a1*cos(p0)cos(pex)+a2*sin(p0)sin(pex)] (default a=[-1,1,1]), for all angles and |t| < 1. It is non-negative and integrates to 1 over the sphere for the default scattering angle.",
  ["inputs"], "all angles, all asymmetry parameters in (-1,1), all generalization parameters a",
  "Tests only call the functions at one point without comparing the value.",
  [VO, SC], [("phase functions", VO+" Isotropic, Rayleigh, HenyeyGreenstein, HGRayleigh"), ("scattering angle", SC+" _Scatter.calc_scattering_angle/scattering_angle_symbolic")], ["V.phase_function", "V.calc()"])
p("C16", "Surface BRDFs have their documented form and norm",
  "Each predefined BRDF (Isotropic, CosineLobe, Henyey-Greenstein, nadir-normalized Henyey-Greenstein) evaluates to its published formula in the cosine of the generalized scattering angle (default a=[1,1,1]), for all angles and parameters. It is non-negative; the isotropic BRDF has hemispherical reflectance 1 for every incidence direction, and the nadir-normalized one has hemispherical reflectance 1 at nadir incidence for every t in (-1,1) except 0.",
  ["inputs"], "all angles, all t in (-1,1), all cosine-lobe powers, all generalization parameters a",
  "Tests only call the functions at one point without comparing the value.",
  [SU, SC], [("BRDFs", SU+" Isotropic, CosineLobe, HenyeyGreenstein, HG_nadirnorm"), ("scattering angle", SC+" _Scatter.calc_scattering_angle/scattering_angle_symbolic")], ["SRF.phase_function", "SRF.calc()"])
p("C17", "Legendre expansions are the truncated expansions of the functions",
  "For every predefined distribution the Legendre expansion is the sum over n = 0..ncoefs-1 of c_n*P_n(cos of the generalized scattering angle), where c_n is the n-th Legendre coefficient of the distribution's own closed form as a function of that cosine, i.e. (2n+1)/2 times the integral over (-1,1) of the closed form times P_n (cosine lobe: power at least 1).",
  ["inputs", "configurations"], "all n, all ncoefs, all asymmetry parameters, all angles",
  "Tests only construct the expansions; coefficients are compared for three n of two pairs in the fn tests.",
  [SU, VO, SC], [("coefficients", SU+" and "+VO+" legendre_coefficients"), ("expansion", SC+" _Scatter.legendre_expansion")], ["V.legendre_expansion()", "SRF.legendre_expansion()"])
p("C18", "Linear combinations combine values and expansions linearly",
  "A linear combination evaluates to the weighted sum of its components' values, each with its own scattering angle, for numeric or symbolic weights and any number of components. Its Legendre expansion is the sum over groups of components sharing the same scattering-angle parameters of the weighted sum of their Legendre coefficients, truncated at the largest ncoefs in the group, and its number of coefficients is the maximum over its components.",
  ["inputs", "programs"], "all lists of components, weights, mixed scattering-angle parameters and ncoefs",
  "Tests only construct one combination per kind without comparing values.",
  [SC, SU, VO], [("linear combination", SC+" _LinComb")], ["LinComb.calc()", "LinComb.phase_function", "LinComb.legendre_expansion()", "LinComb.ncoefs"])
p("C19", "Compiled expressions bind arguments correctly in both backends",
  "A function compiled from symbolic expressions returns the values of those expressions with every variable bound to the value passed for it, positionally or by keyword or mixed, in any keyword order, elementwise with broadcasting, and in the same structure (single expression vs list) - in the sympy and in the symengine backend alike, so both backends give equal model results. Distribution functions are evaluated with theta_0, theta_ex, phi_0, phi_ex in this order and the parameters by name.",
  ["inputs", "configurations"], "all numbers and orders of variables and expressions, both backends, all broadcastable argument shapes",
  "One test compares the two backends for a single model; keyword/positional mixes and argument orders are not tested.",
  [HE, SC, IN], [("compilation", HE+" _lambdify"), ("distribution evaluation", SC+" _Scatter.calc/_lambda_func"), ("backend selection", IN+" get_lambda_backend/set_lambda_backend")], ["V.calc()", "SRF.calc()", "RT1.calc()"])
p("C20", "Pickling preserves the model and leaves the original intact",
  "A model restored from a pickle has the same configuration (distributions, parameter definitions and values, geometry, units, switches) and gives the same results as the original. Pickling does not change what the original model can do afterwards: its configuration, results and methods (including the analyzers) stay available.",
  ["histories", "configurations"], "all configurations and all points of a model's life at which it is pickled",
  "One test pickles one model and compares one calc result; the original's state afterwards is not looked at.",
  [C], [("pickle support", C+" RT1.__getstate__")], ["cloudpickle.dumps(R)", "cloudpickle.loads(...)"])
p("C21", "Evaluation is elementwise",
  "Every result element depends only on the corresponding (broadcast) elements of the angles and parameters: evaluating arrays of angles and parameters equals evaluating each broadcast element separately, for all mutually broadcastable shapes.",
  ["inputs"], "all mutually broadcastable shapes of angles and parameter values",
  "Tests use scalars, and one 2-D array whose parameters all share the full shape.",
  [C, SC], [("elementwise formulas", C+" RT1._surface/_volume/_interaction/_calc_Fint_1/_calc_Fint_2/_S2_mu")], ["RT1.calc()", "RT1.jacobian()"])
p("C22", "Contributions obey reciprocity",
  "If the distribution functions are symmetric under exchange of the incident and exit direction, every contribution divided by cos(theta_0) in linear intensity units (at equal I0) is unchanged when the incident and the exit direction are exchanged.",
  ["inputs"], "all direction pairs, all parameters, all symmetric distributions",
  "No test evaluates a model twice with exchanged directions.",
  [C], [("contributions", C+" RT1._surface/_volume/_interaction")], ["RT1.surface()", "RT1.volume()", "RT1.interaction()"])
p("C23", "Hemispherical reflectance is the weighted integral of the BRDF",
  "The hemispherical reflectance returned for an incidence angle is NormBRDF times the Simpson approximation, over theta in [0, 90] and phi in [0, 360] degrees, of BRDF(theta_0,theta,phi_0,phi)*cos(theta)*sin(theta), for each incidence angle of the requested grid, with the parameters passed.",
  ["inputs"], "all BRDFs, incidence grids, parameter values, NormBRDF given through a model or through the parameters",
  "The notebook only draws the figure.",
  [PL], [("hemispherical reflectance", PL+" hemreflect")], ["plot.hemreflect(returnarray=True)"])
p("C24", "Analyzer sliders represent the specified parameter ranges",
  "For a parameter specification (min, max[, start[, name]]) the analyzer uses exactly min and max as range, start (or the center of the range if omitted) as initial value, and name (or the parameter's name) as label. The displayed curves are the model's results at the slider values, in the order total, surface, volume, interaction.",
  ["inputs"], "all ranges, start values and names",
  "The notebooks only construct analyzers; initial values are not compared with anything.",
  [PL], [("slider specification", PL+" Analyze._parse_parameters"), ("update", PL+" Analyze._update")], ["Analyze(...).sliders", "Analyze lines"])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x, ensure_ascii=False)+"\n" for x in P))
