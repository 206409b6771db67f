#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept in step by hand)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

TB = "pyrtlib/tb_spectrum.py"; RT = "pyrtlib/rt_equation.py"; AB = "pyrtlib/absorption_model.py"
UT = "pyrtlib/utils.py"; UN = "pyrtlib/uncertainty/absmod_uncertainty.py"; WF = "pyrtlib/weighting_functions.py"
EX = "pyrtlib/climatology/extrapolation.py"; AT = "pyrtlib/climatology/atmospheric_profiles.py"
IG = "pyrtlib/apiwebservices/igra2.py"; WY = "pyrtlib/apiwebservices/wyomingupperair.py"
ER = "pyrtlib/apiwebservices/erafive.py"; WS = "pyrtlib/apiwebservices/webservices.py"

p("C01", "A simulation is a function of its inputs, not of what ran before",
  "The result of executing a radiative-transfer simulation depends only on the profile, frequencies, angles, options, emissivity, clouds and spectroscopic parameters given to that simulation object and on the absorption models selected at the time it is executed (building a spectroscopic parameter set or computing weighting functions counts as selecting models). Earlier simulations in the same process (other models, perturbed spectroscopic parameters, other viewing directions or emissivities, cloudy runs, weighting functions, failed runs, or earlier executions of the same object) leave no trace in it.",
  ["histories", "inputs"], "every history of interleaved simulation objects, model selections, perturbed runs, option changes and failures in one process, followed by an execution",
  "each test runs one or two simulations in a fixed order; state shared through classes and reloaded line-list modules can only be told apart by interleavings of several objects, models and perturbed runs",
  [TB, RT, AB, "pyrtlib/_lineshape/h2oll.py", "pyrtlib/_lineshape/o2ll.py", "pyrtlib/_lineshape/o3ll.py", UT, WF],
  [("line lists re-read at the start of every execution", TB + " execute/_init_linelist"), ("viewing direction and emissivity re-installed per execution", TB + " execute")],
  ["TbCloudRTE.execute return values"],
  [("selected models", "per-species model name shared by all simulations", AB), ("line lists", "spectroscopic tables shared by all simulations", AB), ("direction/emissivity", "process-wide switches of the solver", RT)])

p("C02", "Data passed in by the caller is never modified",
  "No simulation, weighting-function computation, unit or humidity conversion, profile extrapolation or spectroscopic perturbation changes an array, dictionary or object the caller passed in, so the same inputs can be reused for any number of computations.",
  ["inputs", "histories"], "every public computation, every input layout (heights starting above sea level, ascending or descending profiles, arrays shared between several objects, perturbed spectroscopic parameter sets) and every sequence of computations on shared inputs",
  "tests build fresh inputs per case and compare outputs only; none compares inputs before and after, and only heights starting above zero or shared inputs expose a write",
  [TB, RT, WF, UN, EX, UT],
  [("profiles copied/derived instead of written", TB + " __init__/init_cloudy"), ("deep copies of parameter sets", UN)],
  ["caller's arrays and dictionaries after any public call"])

p("C03", "Returned results are snapshots",
  "The table and the dictionary of arrays returned by an execution keep their values for ever: executing the same or another simulation again, changing its options (direction, emissivity, clouds, perturbed parameters) or selecting other models never changes a result that was already returned. Values never computed in an execution (cloud quantities of a clear run) are zero in its result whatever was executed before.",
  ["histories"], "every history of executions and option changes on one or more simulation objects, observing every result returned earlier",
  "tests look at a result immediately after the call that produced it",
  [TB, WF], [("result arrays belong to one execution", TB + " execute")],
  ["DataFrame and dictionary returned by TbCloudRTE.execute"])

p("C04", "Each species uses exactly the absorption model selected for it",
  "Selecting a model for the simulation sets it for water vapour, oxygen, nitrogen and cloud liquid together; selecting a model for a single species changes that species only; ozone has its own selection and contributes only when an ozone profile is given; the last selection made before an execution is the one used. A model that does not exist for a species is rejected with the library's error as soon as it is needed, never silently replaced by another model or by leftovers of the previous one.",
  ["histories", "configurations"], "every sequence of model selections (common or per species, valid or not) interleaved with executions, over every supported model of every species",
  "tests use a handful of model combinations, each selected immediately before use and never a wrong one after a right one",
  [TB, AB, RT], [("per-species model attributes and line-list lookup", AB), ("common selection", TB + " init_absmdl"), ("errors on unknown models", AB + " set_ll, liquid/nitrogen branches")],
  ["TbCloudRTE.execute, H2OAbsModel/O2AbsModel/N2AbsModel/LiqAbsModel/O3AbsModel results and exceptions"])

p("C05", "Brightness temperatures solve the discretised radiative transfer equation",
  "For downwelling simulations the returned brightness temperature, atmospheric-only temperature and mean radiating temperature equal the layer-by-layer solution of the non-scattering radiative transfer equation in modified Planck radiance for the layer opacities of the result, plus the cosmic background (2.728 K) attenuated by the total opacity. For upwelling simulations they equal the same solution seen from the top, plus the surface emission (temperature of the lowest level weighted by the per-frequency emissivity, no reflected sky) attenuated by the total opacity; opacities too large to exponentiate (125 Np and beyond) leave only the atmospheric term.",
  ["inputs", "configurations"], "every temperature/humidity/pressure profile, frequency, angle, viewing direction, emissivity and opacity regime from transparent to fully opaque",
  "tests pin a few tropical-profile brightness temperatures at 20-200 GHz and never look at the atmospheric-only or mean radiating temperatures, the opaque branch or arbitrary emissivities",
  [RT, TB, UT], [("layer recursion and background terms", RT + " planck"), ("inverse Planck", RT + " bright")], ["tbtotal, tbatm, tmr columns; RTEquation.planck/bright"])

p("C06", "Slant path lengths follow the viewing geometry",
  "Without ray tracing every layer path is its thickness divided by the sine of the elevation angle. With ray tracing it is the refracted spherical-Earth path of the Dutton-Thayer-Westwater algorithm for the profile's refractive index and the observer's height above sea level (equal to the layer thickness within one degree of zenith), and the same path is used for every integral of that angle; refractive indices below one and ducting are reported by a warning, never silently integrated.",
  ["inputs"], "every elevation angle, profile, observer height and refractivity structure (isothermal, inversions, equal neighbouring layers, vacuum layers, near-ducting)",
  "one test uses one angle (37 degrees) with one profile starting at sea level",
  [RT, TB], [("plane-parallel air mass", TB + " execute"), ("ray bending", RT + " ray_tracing")], ["RTEquation.ray_tracing; opacities and integrals of TbCloudRTE.execute"])

p("C07", "Opacities and integrated amounts are the layer-wise path integrals",
  "Per-layer wet, dry, liquid and ice opacities are the returned absorption profiles integrated along the slant path with an exponential profile inside each layer (arithmetic mean or zero where a layer boundary is exactly zero, linear where the two values coincide), the first level contributing nothing, and the total opacities are their sums. Integrated vapour density, wet and dry refractivity are the same integral of the vapour density and of the Thayer refractivities computed from the given temperature, pressure and humidity, in centimetres.",
  ["inputs"], "every profile (including zero humidity, repeated values, supersaturation, coarse or fine grids), frequency, angle and path option",
  "no test reads any returned quantity except the total brightness temperature",
  [RT, TB], [("exponential layer integration", RT + " exponential_integration"), ("vapour pressure and refractivity", RT + " vapor/refractivity")], ["tauwet/taudry columns, taulay*, srho, swet, sdry"])

p("C08", "Channels, angles and observers are independent of how they are batched",
  "The result for a frequency and an angle does not depend on which other frequencies or angles are simulated with it, on their order or repetition; rows come out grouped by angle in the order given, frequencies in the order given, each labelled with its angle, and a per-frequency emissivity is applied to its own frequency. Computing one channel at a time gives identical numbers.",
  ["inputs"], "every frequency list, angle list and emissivity vector, in every order, with repetitions and of any length including one",
  "tests use one frequency list with one angle and mostly scalar emissivity",
  [TB], [("frequency and angle loops", TB + " execute"), ("emissivity setter", TB + " emissivity")], ["rows of the DataFrame; arrays of the dictionary"])

p("C09", "Cloud opacity and cloud amounts follow the given cloud densities",
  "Liquid opacity integrates the liquid-water absorption of the selected model for each level's liquid density, ice opacity the Westwater ice absorption, and integrated liquid and ice are the trapezoidal path integrals of the respective densities over each cloud from its base level to its top level (cloud base and top are levels of the profile); all clouds given contribute, whatever the order of their heights and wherever the observer's height. Zero densities reproduce the clear-sky result exactly and the cloud radiating temperature is the effective radiating temperature of the first cloud.",
  ["inputs", "configurations"], "every number and arrangement of clouds, density profile, observer height, angle, frequency and viewing direction",
  "the two cloudy tests use one profile at zero height and look at brightness temperature only",
  [TB, RT, AB], [("cloud level search", TB + " init_cloudy"), ("cloud absorption", RT + " cloudy_absorption"), ("density integral", RT + " cloud_integrated_density"), ("cloud temperature", RT + " cloud_radiating_temperature")], ["tauliq, tauice, tmrcld columns; sliq, sice, taulayliq, taulayice"])

p("C10", "Profiles given top-down are the same as bottom-up; bad grids are refused",
  "A simulation given a profile ordered from the top down produces exactly the result of the same profile ordered from the surface up, including its ozone and cloud densities, and a profile whose heights are not strictly monotonic is refused instead of being simulated. Heights count from the lowest level, so adding a constant to all heights changes nothing in a plane-parallel simulation.",
  ["inputs"], "every profile, its reversal, every profile with repeated or out-of-order heights, every height offset, with and without ozone and clouds",
  "no test passes a descending or non-monotonic profile or one starting above sea level",
  [TB], [("monotonicity test and flip", TB + " __init__"), ("height origin", TB + " __init__")], ["TbCloudRTE constructor outcome and execute results"])

p("C11", "Water vapour absorption follows the selected published line model",
  "For every supported water-vapour model the absorption equals the sum of its resonant lines (strength, pressure and speed-dependent width, shift, 750 GHz cut-off) and of its self and foreign continuum, evaluated with that model's own coefficients and vapour-density convention, at any frequency, pressure, temperature and humidity; it is zero without vapour.",
  ["inputs", "configurations"], "all 14 water-vapour models over the whole frequency (1-1000 GHz and beyond the line cut-offs), pressure, temperature and humidity ranges, at and between line centres",
  "tests pin total brightness temperatures of some models at 14 or so frequencies below 200 GHz for one profile, where most lines, cut-offs and branches contribute nothing",
  [AB, "pyrtlib/_lineshape/h2oll.py", "pyrtlib/_lineshape/h2o_lineshape.nc"], [("line and continuum sum", AB + " H2OAbsModel.h2o_absorption"), ("coefficient tables", "pyrtlib/_lineshape/h2o_lineshape.nc")], ["H2OAbsModel().h2o_absorption, awet of execute"])

p("C12", "Oxygen absorption follows the selected published line-mixing model",
  "For every supported oxygen model the absorption equals the non-resonant term plus the sum over its lines with the model's width, first-order (and, where defined, second-order) line mixing, shift and speed dependence, evaluated with that model's own coefficients, at any frequency, pressure, temperature and humidity.",
  ["inputs", "configurations"], "all 12 oxygen models over the whole frequency, pressure (surface to 0.01 mb), temperature and humidity ranges, at and between line centres",
  "tests pin total brightness temperatures of a few models at a dozen frequencies for one profile; submillimetre lines, low pressures and most model branches have no test",
  [AB, "pyrtlib/_lineshape/o2ll.py", "pyrtlib/_lineshape/o2_lineshape.nc"], [("line-mixing sum", AB + " O2AbsModel.o2_absorption"), ("coefficient tables", "pyrtlib/_lineshape/o2_lineshape.nc")], ["O2AbsModel().o2_absorption, adry of execute"])

p("C13", "Nitrogen, ozone and dry-air totals follow the selected models",
  "Collision-induced nitrogen absorption and ozone line absorption equal their published model formulas for the selected model at any frequency, pressure and temperature; ozone is proportional to the ozone number density and absent when none is given. The dry absorption returned is exactly the sum of the oxygen, nitrogen and ozone contributions and the wet absorption is the water-vapour contribution alone.",
  ["inputs", "configurations"], "all nitrogen and ozone models, frequencies (at and between ozone lines), pressures, temperatures, ozone profiles, and presence or absence of each contributor",
  "nitrogen is only seen through total brightness temperatures and ozone through two pinned cases",
  [AB, RT, "pyrtlib/_lineshape/o3ll.py", "pyrtlib/_lineshape/o3_lineshape.nc"], [("nitrogen", AB + " N2AbsModel"), ("ozone", AB + " O3AbsModel"), ("sum", RT + " clearsky_absorption")], ["adry/awet of execute and RTEquation.clearsky_absorption"])

p("C14", "Physical bounds hold for every simulation",
  "For any physically valid profile and emissivity between 0 and 1, brightness temperatures lie between zero and the largest source temperature (profile, surface, cosmic background), a downwelling one is at least the attenuated cosmic background, an isothermal opaque atmosphere is seen at its own temperature from both sides, opacities and absorption are never negative, and total opacity is the sum of its parts. A more slanted plane-parallel path never has less opacity, and more emissivity never gives a lower upwelling temperature.",
  ["inputs", "configurations"], "every valid profile, model, frequency, angle, direction and emissivity",
  "universally quantified inequalities; tests compare single numbers",
  [RT, TB, AB], [("radiative transfer recursion", RT + " planck"), ("absorption sums", AB)], ["all outputs of execute"])

p("C15", "Perturbing one spectroscopic parameter changes exactly that parameter",
  "A perturbed parameter set differs from the reference set in exactly the requested parameters and line indices, where the value becomes reference plus uncertainty ('max'), minus uncertainty ('min') or unchanged ('non') at the given line, or at all lines when none is given, every other value, uncertainty, unit and reference staying as it was. The reference set, the sets handed out earlier and the library's tables stay untouched, so perturbations never accumulate unless the caller feeds a perturbed set back. Unknown parameters, indices and modes, and the random mode (not implemented), are refused.",
  ["histories", "inputs"], "every parameter name, index, mode and sequence of perturbations and re-reads, for all models with parameter sets",
  "tests perturb a few parameters once, with fresh reference sets, and check the brightness temperature only",
  [UN], [("reference tables", UN + " SpectroscopicParameter"), ("copy-and-perturb", UN + " AbsModUncertainty.parameters_perturbation")], ["returned parameter dictionaries"])

p("C16", "Spectroscopic parameters act on the absorption they belong to, as documented",
  "Running a simulation with a parameter set equal to a model's own values gives the same result as running without one (for the model the set was built from). A changed value of a coefficient that the model's formula has (scale factors at one) acts as that coefficient of the formula: it changes only the species and terms it belongs to and the result equals the line model evaluated with the changed coefficient, for this simulation only.",
  ["inputs", "configurations", "histories"], "every parameter of the water-vapour, oxygen and ozone sets, every line index, every perturbation, interleaved with unperturbed runs",
  "tests perturb a few parameters and pin the resulting brightness temperature",
  [AB, TB, UN], [("overrides of line coefficients", AB), ("hand-over to a run", TB + " set_amu")], ["awet/adry of execute with amu"])

p("C17", "Derived uncertainties follow first-order error propagation",
  "Combining two uncertain quantities by scaling, weighted sum or difference, product, quotient or power returns the value of that combination with the uncertainty given by first-order propagation including the covariance term, for all operand values, uncertainties and coefficients.",
  ["inputs"], "every operation and all finite operand values, uncertainties, coefficients and covariances for which it is defined",
  "a few operations are tested at one operand pair without covariance",
  [UN], [("propagation formulas", UN + " uncertainty_propagation")], ["AbsModUncertainty.uncertainty_propagation"])

p("C18", "Climatology tables are returned complete, in the right columns, and fresh",
  "Each standard atmosphere returns the height, pressure, density, temperature and gas columns of its own table, each minor and trace gas identifier the column of that gas on the standard grid, with consistent lengths, monotone height and pressure and documented units; unknown atmospheres or gases are refused. Each call returns independent arrays, so modifying one result never affects a later one.",
  ["inputs", "histories"], "every atmosphere and gas identifier including invalid ones, and every sequence of calls with modification of returned arrays",
  "tests read the tropical table only, never the gases, invalid identifiers or repeated calls",
  [AT, "pyrtlib/climatology"], [("table readers", AT)], ["AtmosphericProfiles.gl_atm/gl_atm_minor/gl_atm_trace"])

p("C19", "Reference atmospheres follow ITU-R P.835 in every region, season and height",
  "Temperature, pressure and water-vapour density of the global standard and of the low, mid and high latitude summer and winter reference atmospheres equal the ITU-R P.835-6 formulas at every height from 0 to 100 km, chosen by latitude band (low below 22 degrees, mid below 45, high from there on) and season; for a month, June to August is summer north of 20N and winter south of 20S, December to February the reverse, and any other month or a latitude in between uses the global standard. Temperature and pressure are positive, vapour is not negative, pressure strictly decreases, and values do not depend on other calls or on whether heights are queried one by one or together.",
  ["inputs", "histories"], "every height, latitude, month/season and hemisphere, every grouping of heights and every call history",
  "tests evaluate one season and latitude on one grid",
  [EX], [("piecewise formulas", EX), ("band and season selection", EX + " profile_extrapolation")], ["ProfileExtrapolation methods"])

p("C20", "Extrapolating a measured profile keeps the measurement and continues it",
  "The extended profile consists of every measured level unchanged followed by reference-atmosphere levels above the top of the measurement only, with equal lengths, heights strictly increasing and no duplicated level, in the documented units, for any measured top height. The result depends only on the arguments of the call.",
  ["inputs", "histories"], "every measured profile length and top height (below, at and above the reference grid), latitude and month, and every sequence of calls on one object",
  "one test extends one tropical profile once",
  [EX], [("merge at the top level", EX + " profile_extrapolation")], ["ProfileExtrapolation.profile_extrapolation"])

p("C21", "Radiosonde archives are parsed to exactly the soundings asked for",
  "Requesting a station and a period from the IGRA v2 archive returns exactly the soundings whose date falls in the period, each level attached to its own sounding's header, with values scaled to their documented units and every missing-value code turned into NaN (levels with nothing observed left out, an unknown hour taken as midnight), in archive order; a period with no sounding is reported as an error. The right archive file is chosen for the requested period.",
  ["inputs", "fault_sequences"], "every archive content (any number of soundings, levels, missing codes, missing hours), every requested date or range, both archive flavours, and transport failures",
  "the only tests need the network and never ran here; parsing depends on arbitrary archive contents",
  [IG, WS], [("fixed-width parser and date window", IG), ("retrieval", WS)], ["IGRAUpperAir.request_data"])

p("C22", "University of Wyoming soundings are parsed faithfully or refused",
  "For a station and time the returned table contains exactly the levels of the sounding in the page, column by column, levels without temperature or dew point left out, with documented derived quantities, units and station metadata; missing observations or an error page raise an error instead of an empty or partial table. The request names exactly the station and hour asked for.",
  ["inputs", "fault_sequences"], "every page content, station, time and server failure",
  "the only tests need the network",
  [WY, WS], [("page parser", WY), ("retrieval", WS)], ["WyomingUpperAir.request_data"])

p("C23", "The reanalysis column extracted is the one nearest to the requested point",
  "Reading a reanalysis file for a latitude and longitude returns the full column, surface first, of the grid point nearest in latitude and longitude among all combinations of the grid, whatever the size, shape or ordering of the grid, with pressure, temperature, humidity, height and cloud water converted to the documented units of the same column and time. A request to the data store names exactly the time, area, grid, levels and variables needed for the point.",
  ["inputs"], "every grid shape and order, every requested point (on, between and at the edge of grid points) and every field content",
  "the test reads one shipped file at one point",
  [ER], [("nearest point search", ER + " _find_nearest"), ("unit conversion", ER + " read_data")], ["ERA5Reanalysis.read_data"])

p("C24", "Web requests fail loudly and never mix up endpoints",
  "Every request joins the endpoint's base address and path, identifies the library, and an endpoint returns the response only when the server reports success; any other status raises an error carrying the status and server message. Sessions are independent: closing, failing or reusing one endpoint never affects another.",
  ["histories", "fault_sequences"], "every sequence of endpoint openings, requests, server statuses, connection failures and closings",
  "network tests cannot run; no test drives statuses or session reuse",
  [WS], [("session and error handling", WS)], ["HTTPEndPoint and subclasses"])

p("C25", "Humidity and unit conversions are mutually consistent and correct",
  "Conversions between mixing ratio, vapour pressure, vapour density, specific humidity, relative humidity, dew point, volume mixing ratio, number density, pressure and height equal their documented formulas with the documented constants for every physical input, elementwise for arrays, and inverse pairs undo each other.",
  ["inputs"], "every physical temperature, pressure and humidity, scalar or array, with and without ice reference",
  "tests pin a few scalar cases",
  [UT], [("conversion formulas", UT)], ["public functions of pyrtlib.utils"])

p("C26", "Weighting functions are transmission times absorption, per channel",
  "A weighting function is the product of the total absorption at each height and the transmittance from there to the satellite (or to the ground) on a regular height grid, per frequency in the order given, whichever way up the profile is given; channel and bandpass results average exactly the member frequencies of each channel, and the optional normalisation divides each curve by its maximum. Plotting a result shows these values and changes neither the result, the frequencies nor later computations.",
  ["inputs", "histories"], "every profile, frequency list, bandpass partition, viewing angle, grid spacing and sequence of compute and plot calls",
  "tests compute one case and check little more than its shape",
  [WF], [("interpolation and simulation", WF + " generate_wf"), ("bandpass averaging", WF)], ["WeightingFunctions.generate_wf and plotted curves"])

p("C27", "Instrument channel lists are the published channels",
  "Each named ground-based or satellite instrument returns its full list of channel frequencies in order: every double-sideband channel appears as a pair symmetric about its centre, no frequency is repeated, names are case-insensitive, unknown instruments are refused, and each call returns an independent list.",
  ["configurations", "histories"], "every instrument name in any letter case, invalid names, and repeated calls with modification of the returned list",
  "no test enumerates the channels",
  [UT], [("channel tables", UT + " get_frequencies/get_frequencies_sat")], ["get_frequencies, get_frequencies_sat"])

p("C28", "Covariance matrices of the parameters are the published ones, in order",
  "The covariance matrices of the spectroscopic parameters handed out by the library (Cimini 2018 with 111 parameters, Cimini 2019 with 112, Gallucci 2023 with 135) have the published values in the documented parameter order, with positive variances, symmetric covariances and no correlation beyond one, and the same oxygen part, so that the variance of any first-order combination of parameter uncertainties obtained from them is the one the publications give.",
  ["inputs"], "every matrix, every pair of parameters and every combination (sensitivity vector) of parameters",
  "tests compare the common part of two matrices only",
  ["pyrtlib/uncertainty/covariance_matrix/__init__.py"], [("matrices read from the published files", "pyrtlib/uncertainty/covariance_matrix/__init__.py")], ["covariance_matrix.R17_111, R17_112, R19"])

p("C29", "Doubtful inputs are announced by a warning, sound ones pass silently",
  "A simulation announces by a warning what makes its results doubtful, every time it happens and only then: a profile with fewer than 25 levels or one that does not reach above 10 hPa (when the simulation is made, whichever way up the profile is given); clouds given to a simulation that is not cloudy; an outdated model selected for cloud liquid (when a cloudy simulation is executed); values that cannot be integrated, a trapped ray, and clouds hidden behind more absorption than can be exponentiated (when it is executed). A sound simulation passes without a warning.",
  ["inputs", "histories"], "every profile (number of levels, top, orientation, sign of the humidity, ducting), every sequence of makings, switchings of clouds and models, and executions",
  "tests do not look at warnings",
  [TB, RT], [("check of the profile, clouds and models", TB), ("integration, ray tracing and cloud temperature", RT)], ["TbCloudRTE(...), init_cloudy, execute"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
