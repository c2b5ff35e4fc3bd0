#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib

CALC = "src/rt1_model/_calc.py"; SCAT = "src/rt1_model/_scatter.py"; SURF = "src/rt1_model/surface.py"
VOL = "src/rt1_model/volume.py"; HELP = "src/rt1_model/helpers.py"; PLOT = "src/rt1_model/plot.py"
INIT = "src/rt1_model/__init__.py"

P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "calc() returns total, surface, volume, interaction and they add up",
  "For every model, R.calc() returns the total followed by the surface, volume and (only if int_Q is enabled) interaction contribution, in this order, and in linear units the total is exactly the sum of the contributions that follow it. Every entry is the same quantity that R.surface(), R.volume() and R.interaction() return for the same state, in the unit selected by sig0 and dB.",
  ["inputs", "configurations"], "all parameter values, angles, scattering functions and all combinations of sig0, dB, int_Q, numeric or symbolic tau",
  "Tests compare the sum for Rayleigh+Isotropic at one angle and one parameter set; the separate contribution methods and int_Q=False are never compared.",
  [CALC], [("RT1.calc", CALC), ("RT1.surface / volume / interaction", CALC)], observe=["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction"])

p("C02", "Surface contribution follows the first-order solution incl. bare-soil fraction",
  "The surface intensity is NormBRDF * I0 * cos(t_0) * BRDF(t_0, t_ex, p_0, p_ex) * [(1-bsf) * exp(-tau/cos(t_0) - tau/cos(t_ex)) + bsf], evaluated with the current parameter values. It does not depend on omega or on the volume scattering function.",
  ["inputs", "configurations"], "all angles, parameters, I0 and surface scattering functions, mono- and bistatic",
  "No test compares the surface contribution with the equation apart from one tau=0 case with bsf=0 and a tolerance of 15.",
  [CALC, "docs/theory.rst"], [("surface term", CALC)], observe=["RT1.surface", "RT1.calc"])

p("C03", "Volume contribution follows the first-order solution",
  "The volume intensity is (1-bsf) * I0 * omega * cos(t_0) / (cos(t_0)+cos(t_ex)) * (1 - exp(-tau/cos(t_0) - tau/cos(t_ex))) * p(t_0, t_ex, p_0, p_ex), evaluated with the current parameter values. It does not depend on NormBRDF or on the surface scattering function.",
  ["inputs", "configurations"], "all angles, parameters, I0 and volume scattering functions, mono- and bistatic",
  "No test compares the volume contribution with the equation; only tau=0 is checked to vanish.",
  [CALC, "docs/theory.rst"], [("volume term", CALC)], observe=["RT1.volume", "RT1.calc"])

p("C04", "Interaction contribution follows the analytic first-order solution",
  "Where tau > 0 the interaction intensity is NormBRDF * (1-bsf) * I0 * cos(t_0) * omega * [exp(-tau/cos(t_ex)) * F(in) + exp(-tau/cos(t_0)) * F(ex)], where F(in) = sum_n f_n * cos(t_0)^(n+1) * S2_n(cos(t_0), tau) and S2_n(mu, tau) = exp(-tau/mu)*ln(mu/(1-mu)) - Ei(-tau) + exp(-tau/mu)*Ei(tau/mu - tau) + sum_{k=1..n+1} mu^(-k) * (E_{k+1}(tau) - exp(-tau/mu)/k). F(ex) is the same expression with incident and exit direction exchanged, in the coefficients f_n as well as in the cosines.",
  ["inputs", "configurations"], "all angles, parameters and scattering functions, mono- and bistatic",
  "Tests never check a value of the interaction term; the fn-coefficients are checked for two function pairs, the series that uses them is not.",
  [CALC, "docs/theory.rst"], [("interaction term, F_int, S2", CALC)], observe=["RT1.interaction", "RT1.calc"])

p("C05", "Unit selection (sig0, dB) is applied exactly once and uniformly",
  "calc(), surface(), volume() and interaction() return the intensity I if sig0=False, 4*pi*cos(t_0)*I/I0 if sig0=True, and 10*log10 of that quantity if dB=True; sigma0 results therefore never depend on I0 while linear intensities are proportional to it. Every public result goes through this conversion exactly once.",
  ["inputs", "configurations"], "all combinations of sig0 and dB, any I0, angles and parameters",
  "I0 is never varied by the tests, no test compares one unit with the other.",
  [CALC], [("unit conversion", CALC)], observe=["RT1.calc", "RT1.surface", "RT1.volume", "RT1.interaction"])

p("C06", "Without a canopy (tau=0) volume and interaction vanish, also elementwise",
  "Wherever tau is zero - as a fixed number, a parameter or single elements of an array - the volume and the interaction contribution are exactly zero (never NaN) in linear units and the total equals the bare surface NormBRDF*I0*cos(t_0)*BRDF. This holds for calc() and for the individual contribution methods alike, whatever the values at other elements are.",
  ["inputs", "configurations"], "every way to specify tau=0, mixed arrays, all scattering functions",
  "Tests use a single scalar tau=0; arrays that mix tau=0 with other values or with undefined elements are never evaluated.",
  [CALC], [("tau=0 handling", CALC)], observe=["RT1.calc", "RT1.interaction", "RT1.volume"])

p("C07", "jacobian() is the exact derivative w.r.t. tau, omega, NormBRDF and bsf",
  "For each of tau, omega, NormBRDF and bsf the jacobian entry is the exact partial derivative of the surface + volume result, expressed in the selected unit: for sig0=True, dB=False it is the derivative of 4*pi*cos(t_0)*I/I0, for intensities the derivative of I, and for dB=True the derivative of 10*log10 of the respective value. This holds for mono- and bistatic geometry and any I0.",
  ["inputs", "configurations"], "all angles, parameter values, units, geometries, scattering functions",
  "The jacobian is only used inside retrieval notebooks, whose optimiser converges to the tolerance even with a wrong jacobian.",
  [CALC], [("jacobian and its core derivatives", CALC)], observe=["RT1.jacobian"])

p("C08", "jacobian() w.r.t. free parameters is the total derivative over all their roles",
  "For any free parameter name, the jacobian entry is the total derivative of the surface + volume result: the sum over every place the parameter is used - the functions given for tau, omega, NormBRDF and bsf (chain rule), the BRDF and the phase function. A parameter that is used in several roles, or only in the function for tau, gets all contributions in both the surface and the volume term.",
  ["inputs", "configurations"], "all parameter names and all assignments of parameter functions and scattering functions using them",
  "Only the notebooks take such derivatives, for one role at a time, and do not verify their values.",
  [CALC], [("chain rule for free parameters", CALC)], observe=["RT1.jacobian"])

p("C09", "jacobian() layout: entry order, formats, rejection of unknown keys/formats",
  "The entries (format 'list') or columns (format 'scipy_least_squares') follow the order of param_list, with one entry per requested parameter and no reuse of another parameter's derivative. In the sparse format a parameter with one value gives one column holding the derivatives of all measurements, any other parameter a block-diagonal set of columns; a name that is neither tau, omega, NormBRDF, bsf nor a known parameter, and an unknown format, raise an error.",
  ["inputs"], "all parameter lists and formats",
  "Notebooks use a few fixed parameter lists; wrong names and formats are never passed.",
  [CALC], [("jacobian assembly", CALC)], observe=["RT1.jacobian"])

p("C10", "Monostatic geometry fixes the exit direction, bistatic takes it from the user",
  "After set_monostatic() the exit direction is always t_ex = t_0 and p_ex = p_0 + pi for the current incident direction, whatever was configured before. After set_bistatic() each of the four angles is exactly the value that was fixed in set_bistatic() or last set with set_geometry(), and an angle that was never set is reported with an AttributeError when it is used.",
  ["inputs", "histories"], "all angle values and all sequences of geometry calls",
  "One test checks the relation for a single scalar geometry without changing the geometry afterwards.",
  [CALC], [("angle properties, set_monostatic, set_bistatic, set_geometry", CALC)], observe=["RT1.t_0", "RT1.t_ex", "RT1.p_0", "RT1.p_ex"])

p("C11", "Invalid geometry requests are always rejected",
  "set_geometry() raises an error for unknown angle names, for None, for an angle that is currently fixed, and for an exit angle in monostatic geometry; set_monostatic() and set_bistatic() raise an error for fixed angles that are not real numbers. Unknown names and exit angles in monostatic geometry are rejected before any angle of the call takes effect, and switching the geometry un-fixes all previously fixed angles.",
  ["inputs", "histories"], "all arguments in any state of the geometry",
  "A single xfail test covers one fixed angle.",
  [CALC], [("validation in set_geometry / set_monostatic / set_bistatic", CALC)], observe=["RT1.set_geometry", "RT1.set_monostatic", "RT1.set_bistatic"])

p("C12", "The interaction term is evaluated for the requested geometry, fixed or not",
  "The expansion coefficients of the first interaction path are those of p(pi - t_0, p_0 -> theta_s, phi_s) * BRDF(theta_s, phi_s -> t_ex, p_ex) at exactly the angles reported by R.t_0, R.t_ex, R.p_0, R.p_ex, and those of the second path have incident and exit direction exchanged. Fixing any subset of angles (set_bistatic(t_0=..), set_monostatic(p_0=..)) only speeds up the evaluation: the coefficients equal those obtained with the same angles set dynamically, and bistatic results at t_ex=t_0, p_ex=p_0+pi equal monostatic results.",
  ["inputs", "configurations"], "all angles, all 16 fixed/dynamic combinations in bistatic and both in monostatic geometry, all scattering functions",
  "Bistatic tests use an isotropic surface (independent of all angles) and only check that the sum of contributions is the total.",
  [CALC], [("interaction expansion, fn evaluation", CALC)], observe=["RT1.interaction", "RT1.calc"])

p("C13", "fn-coefficients are the exact azimuth integral for every expansion order",
  "For all numbers of expansion coefficients the fn-coefficients are the coefficients of cos(theta_s)^n, n = 0 .. N_V+N_S-2, of 2*pi times the mean over phi_s in [0, 2*pi] of the product of the two truncated Legendre expansions. No power of sin(phi_s), cos(phi_s) or sin(theta_s) that the product can contain is left unreplaced, no coefficient is dropped or duplicated, and the same number of terms enters the F_int series.",
  ["inputs"], "all pairs (N_V, N_S) of expansion orders and all Legendre-type scattering functions",
  "Three tests check the coefficients for (1,1), (3,1) and (3,2) expansions, i.e. powers up to 2.",
  [CALC], [("azimuth integration and coefficient extraction", CALC)], observe=["RT1.interaction"])

p("C14", "Results never come from stale caches",
  "After any sequence of set_monostatic/set_bistatic/set_geometry, assignments to tau, omega, NormBRDF or bsf, parameter updates (also with new parameter names), calc() and jacobian() calls, every result equals that of a freshly created model in the same configuration. A rejected call leaves no cached value behind that belongs to a different state.",
  ["histories"], "all finite histories of the public mutators, including failing calls, for any number of model instances",
  "Tests evaluate a model once or repeat the same sequence; no test changes geometry or parameter functions after an evaluation.",
  [CALC, SCAT], [("lru_cache members, lazily compiled fn functions and their invalidation", CALC), ("compiled scattering function cache", SCAT)],
  state=[("cached cosines", "cosines of the current angles", CALC), ("fn / fnevals", "interaction coefficients and their compiled form", CALC)], observe=["RT1.calc", "RT1.jacobian"])

p("C15", "tau, omega, NormBRDF and bsf accept numbers, strings and sympy expressions alike",
  "Reading R.tau, R.omega, R.NormBRDF or R.bsf returns the assigned number unchanged, or the assigned expression - given as string or as sympy expression - evaluated with the current values of the parameters of the same name. If a required parameter has no value a TypeError that names the missing parameters is raised; no default or value of another quantity is used instead.",
  ["inputs", "histories"], "all expressions, parameter names and values, for each of the four quantities",
  "Notebooks assign two string expressions; sympy expressions and missing parameters are never tried.",
  [CALC], [("evaluation of parameter functions", CALC)], observe=["RT1.tau", "RT1.omega", "RT1.NormBRDF", "RT1.bsf"])

p("C16", "Parameter values persist until overwritten; bsf defaults to 0",
  "update_params(**p) and the parameters passed to calc(), surface(), volume() and interaction() store exactly the given values (as arrays) under the given names and leave all other parameters unchanged, and the evaluation in the same call already uses them. bsf is 0 unless a value is given, and an explicitly given value is never replaced by that default.",
  ["inputs", "histories"], "all sequences of parameter updates",
  "Tests pass all parameters once; persistence and the default are not asserted.",
  [CALC], [("update_params and its callers", CALC)], observe=["RT1.param_dict", "RT1.calc"])

p("C17", "User inputs, defaults and cached arrays are never modified in place",
  "No call of the package modifies an array, list or dict that the caller passed in, a mutable default argument, or an array that is cached or stored in the model (other than by storing parameters in the model's own parameter dict). Arrays returned by calc(), surface(), volume() and interaction() can therefore be modified by the caller without changing later results.",
  ["inputs", "histories"], "all public functions and argument values",
  "No test compares an input before and after a call.",
  [CALC, SCAT, HELP, PLOT], [("in-place operations across the package", CALC)], observe=["RT1", "volume", "surface", "plot"])

p("C18", "Generalized scattering angle and its surface/volume defaults",
  "The scattering angle is cos(Theta) = a0*cos(t_0)*cos(t_ex) + sin(t_0)*sin(t_ex)*(a1*cos(p_0)*cos(p_ex) + a2*sin(p_0)*sin(p_ex)) for every scattering function, numerically and symbolically. Without an explicit a, surfaces use a=[1,1,1] and volumes a=[-1,1,1]; a given a (numbers or expressions) is used as given and must have exactly three entries.",
  ["inputs"], "all angles and all a",
  "Constructors are called with one a; no test evaluates the angle, so sign or role errors of a single component go unnoticed.",
  [SCAT, SURF, VOL], [("calc_scattering_angle and constructors", SCAT)], observe=["calc", "legendre_expansion"])

p("C19", "Legendre coefficients and phase function of a class describe the same function",
  "For every built-in scattering function the (infinite) Legendre series given by its Legendre coefficients equals its phase function for all parameter values. In particular normalisation factors, the role of t and the class-specific prefactors agree between the two.",
  ["inputs"], "all t in (-1,1), all powers i, all a, all orders n",
  "Tests only call both and never compare them.",
  [SURF, VOL], [("phase_function / legendre_coefficients per class", SURF), ("phase_function / legendre_coefficients per class", VOL)], observe=["calc", "legendre_expansion"])

p("C20", "Built-in functions are normalized",
  "Each built-in volume phase function with default a integrates to 1 over the sphere for every parameter value; the surface Isotropic has hemispherical reflectance 1, HG_nadirnorm has nadir hemispherical reflectance 1 (a=[1,1,1]) for every t in (-1,1) including t=0, and the surface Henyey-Greenstein function is (1/pi) * (1-t^2) / (1+t^2-2*t*cos(Theta))^1.5.",
  ["inputs"], "all t in (-1,1)",
  "No test integrates a phase function.",
  [SURF, VOL], [("prefactors of the scattering functions", VOL)], observe=["calc", "legendre_expansion"])

p("C21", "Legendre expansion uses exactly the requested orders",
  "legendre_expansion(t_0, t_ex, p_0, p_ex) is the sum over n = 0 .. ncoefs-1 of the n-th coefficient times P_n of the generalized scattering angle at exactly these arguments. ncoefs is the value given by the user, always 1 for isotropic functions and 3 for Rayleigh, and using an expansion without having specified ncoefs raises an error that says so.",
  ["inputs"], "all ncoefs, angles and classes",
  "The result of legendre_expansion is never inspected by the tests.",
  [SCAT, SURF, VOL], [("legendre_expansion and ncoefs", SCAT)], observe=["legendre_expansion", "ncoefs"])

p("C22", "Linear combinations are the weighted sum of their components",
  "The phase function of a LinComb is the sum of weight times phase function over all its components, and its Legendre expansion the sum of weight times component coefficients, each component evaluated with its own scattering angle a and its own weight, with at least as many orders as the component requires. Weights may be numbers or expressions, the number of coefficients of the combination is the largest one of its components, and no component is dropped, duplicated or paired with another weight.",
  ["inputs"], "all lists of (weight, function), any grouping of a and ncoefs",
  "Tests only evaluate a combination in which all components share the same weight, without checking the value.",
  [SCAT], [("_LinComb", SCAT)], observe=["LinComb.calc", "LinComb.legendre_expansion", "LinComb.ncoefs"])

p("C23", "Backend selection is validated, effective and exhaustive",
  "set_lambda_backend() accepts exactly 'sympy' and 'symengine', an invalid name raises and leaves the selection unchanged, and get_lambda_backend() returns the last selection. Every place that depends on the backend uses the selection at call time and handles both backends, and compiled functions can be called with positional and keyword arguments in the same way with both.",
  ["inputs", "histories"], "all sequences of selections, all call forms",
  "Tests select each backend once before use and compare one function pair; invalid names are not tried.",
  [INIT, HELP, CALC], [("set_lambda_backend, _lambdify, _expand", HELP)], observe=["set_lambda_backend", "get_lambda_backend", "RT1.calc"])

p("C24", "matplotlib and symengine stay optional",
  "Importing rt1_model and evaluating models requires only numpy, scipy and sympy: matplotlib is imported only by the plotting module, symengine only where it is selected or probed, and a missing optional package disables just the corresponding feature. With symengine missing the default backend is sympy.",
  ["configurations"], "all combinations of installed optional packages",
  "The test environment has every optional package installed.",
  [INIT, CALC, SCAT, HELP, PLOT], [("guarded imports", INIT)], observe=["import rt1_model"])

p("C25", "Pickling does not change the model and restores a usable one",
  "Pickling or copying a model does not modify it: afterwards it still evaluates, can be re-evaluated, and all its methods (analyze, analyze3d) work. The restored model has the same configuration and parameter values, lazily re-creates whatever was dropped, and offers the same methods.",
  ["histories"], "all models and states at which they are pickled",
  "The test compares one calc() result after unpickling; side effects on the original and lost methods are not checked.",
  [CALC], [("__getstate__", CALC)], observe=["pickle", "copy", "RT1"])

p("C26", "Parameter names are taken literally and never leak into the package",
  "All strings that define parameters, weights or a are parsed by one common rule in which the names N, S and Q (and other plain identifiers that are neither reserved symbols of the model, i.e. the angles and the expansion index n, nor names of sympy functions or constants) denote free parameters, so the name under which a value is passed is the name used in the expression. Choosing a parameter name never changes module-level names of the package, e.g. a parameter called 'np' or 'sp' does not break this or other models.",
  ["inputs", "histories"], "all identifiers usable as parameter name",
  "Tests use a handful of harmless names (x, t_s, N).",
  [HELP, CALC], [("_parse_sympy_param, variable creation", HELP)], observe=["RT1.calc", "RT1.update_params"])

p("C27", "Array inputs broadcast elementwise in every contribution",
  "For angles and parameters of any mutually broadcastable shapes each contribution returned by calc() has the full broadcast shape (of the angles and of all parameters the result depends on) and each element equals the scalar result for that element. The internal axis over expansion orders never aligns with a user axis, and all contributions stacked by calc() have the same shape.",
  ["inputs"], "all broadcastable shapes of angles and parameters, both backends",
  "Tests use scalars or arrays that already have the full shape.",
  [CALC, SCAT], [("F_int summation, stacking, scattering function evaluation", CALC)], observe=["RT1.calc", "RT1.interaction"])

p("C28", "hemreflect integrates the BRDF over the full hemisphere",
  "hemreflect() evaluates NormBRDF times the integral of BRDF(theta_0, theta_s, phi_0, phi_s) * cos(theta_s) * sin(theta_s) over theta_s in [0, pi/2] and phi_s in [0, 2*pi] for each incidence angle of the requested grid given in degrees. NormBRDF is taken from the model R or from param_dict (default 1), and values above 1 trigger the warning.",
  ["inputs"], "all BRDFs, grids and parameters",
  "A notebook plots one reflectance; no value is checked.",
  [PLOT], [("hemreflect", PLOT)], observe=["plot.hemreflect"])

p("C29", "polarplot draws function and approximation at the same angles",
  "For each incidence angle (given in degrees) and parameter set, polarplot() draws calc(inc, theta, 0, 0) over theta and, if the approximation is enabled and ncoefs is available, the Legendre expansion evaluated at the same angles and parameters. Missing parameters are reported before anything is drawn, and a missing ncoefs disables only the approximation.",
  ["inputs"], "all scattering functions, incidence angles and parameter sets",
  "Notebooks only draw plots; nothing is compared.",
  [PLOT], [("polarplot", PLOT)], observe=["plot.polarplot"])

p("C30", "Analyzers respect the given parameter ranges and restore temporary settings",
  "Analyzer sliders use the given minimum and maximum, the given start value or else the centre of the range, and the given name or else the parameter name. Each update evaluates the model with exactly the slider values, a temporary change of int_Q is undone also if the evaluation fails, and a required parameter that is neither given nor known raises an error.",
  ["inputs", "histories"], "all ranges, start values, names and slider movements",
  "Notebooks create analyzers with ranges starting at about 0, for which wrong centres are hardly visible.",
  [PLOT], [("Analyze, Analyze3D, _check_params", PLOT)], observe=["RT1.analyze", "RT1.analyze3d"])

p("C31", "set_loglevel applies level and format to one single handler",
  "set_loglevel(level, fmt) sets the level of the package logger and of one handler that is attached at most once, however often it is called, and accepts every documented format short-name (plain, basic, timed, debug) as well as custom format strings. Importing the package attaches no handler and changes no logger other than its own.",
  ["inputs", "histories"], "all levels, formats and call sequences",
  "Notebooks call it once with default format.",
  [INIT], [("set_loglevel, _ensure_handler, _set_logfmt", INIT)], observe=["set_loglevel"])

p("C32", "Documentation inheritance never affects the documented object",
  "Decorating a class or function with the docstring-combining decorator always returns this same object, with its own parameter descriptions taking precedence over inherited ones; a docstring that is missing or cannot be parsed never raises, and the docstrings of the parents are left unchanged.",
  ["inputs"], "all objects and docstrings",
  "Only exercised implicitly at import time with well-formed docstrings.",
  [HELP], [("append_numpy_docstring", HELP)], observe=["help()"])

p("C33", "Results are defined for all valid angles and parameters",
  "For 0 <= t_0, t_ex < 90 deg, tau >= 0, 0 <= omega, bsf <= 1, NormBRDF >= 0, I0 > 0 and t in (-1,1), no division by zero, logarithm of zero or singular special function argument occurs in a linear-unit contribution or a built-in scattering function.",
  ["inputs"], "the closed valid parameter domain incl. nadir incidence, t=0 and tau=0",
  "Tests stay in the interior of the domain.",
  [CALC, SURF, VOL], [("denominators and special functions", CALC)], observe=["RT1.calc", "calc"])

# -------- not claimed (see MANIFEST not_applicable)
p("C34", "Interaction term is numerically accurate",
  "The evaluated interaction contribution agrees with direct numerical integration of the radiative transfer expression to a relative accuracy of 1e-6 for up to 20 expansion coefficients.",
  ["inputs"], "all angles and parameters in floating point arithmetic",
  "No test integrates numerically.", [CALC], [("F_int", CALC)])
p("C35", "sympy and symengine backends agree numerically",
  "For every model both backends return results that agree to floating point accuracy.",
  ["inputs", "configurations"], "all models and inputs",
  "One function pair is compared.", [HELP, CALC], [("_lambdify", HELP)])
p("C36", "Closed-loop retrieval recovers the simulated parameters",
  "Fitting simulated data with scipy.optimize.least_squares and the model jacobian recovers the parameters within the noise level.",
  ["inputs"], "all parameter sets within bounds and noise realisations",
  "Notebooks sample one random seed each.", [CALC], [("jacobian", CALC)])
p("C37", "Energy conservation",
  "The hemispherical integral of the total scattered intensity never exceeds the incident flux for physically valid parameters.",
  ["inputs"], "all valid parameters and functions",
  "Never integrated by a test.", [CALC], [("contributions", CALC)])
p("C38", "Fixing angles and caching speed up the evaluation",
  "Fixing angles, pre-computed fn-coefficients and the symengine backend reduce evaluation time.",
  ["configurations"], "all models", "Timing is not measured by tests.", [CALC], [("fixed angles", CALC)])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
