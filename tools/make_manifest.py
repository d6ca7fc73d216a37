#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the list below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP, CONF, HIST, SCHED, PROG = "inputs", "configurations", "histories", "schedules", "programs"
SOLVE, REC, CONFI, HARM = "utide/_solve.py", "utide/_reconstruct.py", "utide/confidence.py", "utide/harmonics.py"
ASTR, SEL, DIAG, ELL = "utide/astronomy.py", "utide/constituent_selection.py", "utide/diagnostics.py", "utide/ellipse_params.py"
PER, ROB, UTIL, TIME, TAB = ("utide/periodogram.py", "utide/robustfit.py", "utide/utilities.py",
                             "utide/_time_conversion.py", "utide/_ut_constants.py")

P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note))


prop("C01", "Known tide in, known tide out",
     "When a record is exactly a mean, an optional trend and a sum of harmonic constituents that the record can resolve, "
     "solve returns those amplitudes and phases (or current ellipses), mean and slope to numerical accuracy, for every "
     "phase and nodal convention, latitude, constituent and time grid. reconstruct from that solution then gives the "
     "true tide at any time, inside the record or in a hindcast or forecast years away.",
     [INP, CONF], "every well-conditioned record (regular, jittered, gappy, 1700-2200), any resolvable subset of the 145 "
     "constituents, any latitude, scalar or vector, all phase x nodal x trend options",
     "Tests use one series of eight constituents at one place and date and compare with loose bounds.",
     [SOLVE, HARM, REC, ASTR, ELL], [("design matrix and least squares", SOLVE + ":_solv1"), ("basis", HARM + ":ut_E"),
      ("nodal factors and Greenwich arguments", HARM + ":FUV"), ("prediction", REC + ":_reconstruct")],
     "property-based testing (Hypothesis) with an independent reference model: synthesise, analyse, compare and forecast",
     "Signals come from an independently written long-double model using a committed snapshot of the constituent tables.")
prop("C02", "The OLS solution is the least-squares solution",
     "With ordinary least squares the returned parameters (amplitudes, phases, mean, slope) minimise the sum of squared "
     "differences between the data and the documented model, for scalar and vector data with any amount of unexplained "
     "energy; also with constituents the record hardly separates. No other parameter set fits better, and the confidence-interval option does not change the estimates.",
     [INP, CONF], "every record with noise of any kind, any constituents, options, and confidence-limit choice",
     "Tests check a single nearly noise-free example against tolerances; optimality is a statement over all data.",
     [SOLVE, HARM], [("least squares", SOLVE + ":_solv1"), ("basis", HARM + ":ut_E")],
     "property-based testing: differential against an independent real-column QR solver, plus perturbation oracle",
     "Compared on design matrices with condition number below 1000.")
prop("C03", "Predictions are the documented harmonic sum",
     "reconstruct returns mean, plus trend, plus the sum over constituents of nodally corrected cosines (or rotating "
     "ellipses) built from the amplitudes, phases, frequencies, reference time, latitude and options stored in the "
     "solution, at every requested time however far from the record. With no nodal correction or raw phases the "
     "corresponding terms are exactly absent.",
     [INP, CONF], "any solution of 1-12 constituents, any latitude, phase x nodal x trend x dimension, any prediction "
     "time within centuries",
     "Tests only check that the hindcast of one example is close to the input it was fitted to.",
     [REC, HARM, ASTR], [("prediction", REC + ":_reconstruct"), ("basis", HARM + ":ut_E"), ("FUV", HARM + ":FUV")],
     "property-based testing: differential against an independent long-double evaluation of the harmonic sum",
     "M7 with Greenwich or linear-time phases is a known finding and excluded from generation (reproduced as a fixed case).")
prop("C04", "Equivalent representations of the input give the same answer",
     "The same instants given as datetime64 of any unit, datetime objects, pandas or day numbers (since 0000-12-31, or with an epoch), "
     "and the same values given as lists, tuples, integers, masked arrays, pandas Series or other array layouts, yield "
     "the same solution and the same predictions. Only the times themselves matter, not how they or the epoch are "
     "written; likewise for options written as numpy or integer truth values.",
     [INP, CONF], "all supported time types and epochs, containers and dtypes for t, u, v, lat and constit, in solve and "
     "reconstruct",
     "Tests compare three time formats on one short series.",
     [TIME, SOLVE, REC], [("time conversion", TIME + ":_normalize_time"), ("input preparation", SOLVE + ":_slvinit")],
     "property-based testing: metamorphic relation between drawn representations of one record",
     "Day numbers are compared with tolerance for their float resolution.")
prop("C05", "Missing samples are ignored by solve however they are marked",
     "Samples missing in the data or in the times, whether NaN, infinite, masked or NaT, influence nothing: the solution "
     "is the one of the record's valid samples, identical for all ways of marking them. A vector sample counts as missing "
     "when either component is. For equally spaced times the analysis window (reference time, automatic constituent "
     "choice) stays that of all the times given; for uneven times it is that of the valid samples.",
     [INP, CONF], "all patterns of missing samples (scattered, blocks, edges) in u, v and t, and all markings",
     "Tests drop one block of NaN from one series and only check that solve runs with about the same amplitude.",
     [SOLVE, TIME], [("input preparation", SOLVE + ":_slvinit"), ("masked times", TIME + ":_normalize_time")],
     "property-based testing: metamorphic (marking, garbage under the mask, row removal) and differential oracles",
     "Records are generated with enough valid samples to determine the model.")
prop("C06", "reconstruct acts pointwise; missing times give missing values",
     "Each predicted value depends only on its own time: predicting a list of times in any order, in pieces, repeated or "
     "one by one gives the same values in the corresponding places. Missing times yield missing values there and nowhere "
     "else, and the output has one entry per requested time with the fields of the solution's dimension (h, or u and v).",
     [INP, CONF], "all lists of prediction times (unsorted, repeated, missing in any marking, single) and solutions",
     "Tests predict only at the sorted, complete times of the fitted record.",
     [REC, TIME], [("prediction", REC + ":_reconstruct"), ("output", REC + ":reconstruct")],
     "property-based testing: metamorphic (permutation, splitting, missing markers)",
     "Values are compared to rounding.")
prop("C07", "The ordinary least-squares analysis is linear in the data",
     "Analysing a weighted sum of two records plus an offset and a modelled trend gives the same weighted sum of their "
     "solutions (as cosine and sine coefficients, mean and slope) and predictions. For vector data the weights may be "
     "complex: scaling and turning the data scales and turns the solution.",
     [INP, CONF], "all pairs of records on a common time grid, weights from 1e-6 to 1e6 of either sign, offsets and slopes",
     "A relation between many runs on arbitrary data; tests run single examples.",
     [SOLVE, HARM, ELL], [("least squares", SOLVE + ":_solv1"), ("ellipse conversion", ELL + ":ut_cs2cep")],
     "property-based testing: metamorphic relation (superposition)", "Compared with tolerances scaled by conditioning.")
prop("C08", "Vector solutions are consistent with their components and with axis changes",
     "The ellipse parameters of a vector analysis describe the motion given by the separate scalar analyses of u and v, "
     "with non-negative major axis at least as long as the minor one, minor-axis sign giving the sense of rotation, "
     "orientation in [0, 180] and phase in [0, 360] degrees. Turning, reflecting or swapping the axes changes only what it "
     "must: orientations turn, reflections flip the sign of the minor axis. A current along an axis is the scalar analysis "
     "of that component, limits included.",
     [INP, CONF], "all ellipses (including nearly rectilinear, circular, axis-aligned), any rotation angle or reflection",
     "Tests compare one synthetic ellipse set; degenerate ellipses and transformations are not reached.",
     [ELL, SOLVE, REC], [("ellipse conversion", ELL + ":ut_cs2cep"), ("vector fit", SOLVE + ":_solv1")],
     "property-based testing: differential against singular values of the scalar analyses, metamorphic axis changes",
     "Angles of (nearly) circular or vanishing ellipses are compared through the motion they describe.")
prop("C09", "Phase and nodal options are related as documented",
     "Raw phases differ from Greenwich phases by the constituent's astronomical argument, and uncorrected amplitudes and "
     "phases from nodally corrected ones by the nodal factor and phase, all evaluated at the record's reference time for "
     "the linearised options. Changing linearised options changes no hindcast, and exact-time options agree with "
     "linearised ones to first order in the record length. Frequencies are those at the reference time.",
     [INP, CONF], "all nine combinations of phase and nodal options on any record, latitude and epoch",
     "Tests run some of the options but compare none of them with each other.",
     [HARM, SOLVE, ASTR], [("FUV", HARM + ":FUV"), ("basis", HARM + ":ut_E"), ("options", SOLVE + ":_translate_opts")],
     "property-based testing: metamorphic relations between option sets with the reference model as oracle",
     "Records up to two months for the first-order comparison.")
prop("C10", "Constituents are selected by the Rayleigh criterion or exactly as requested",
     "With automatic selection the solution holds exactly the tidal constituents whose Rayleigh criterion is met "
     "by the record length and the Rayleigh minimum; with a list it holds exactly the listed ones once each. Names, "
     "frequencies and reported counts (including references and inferred constituents) agree, and a longer record never "
     "loses a constituent.",
     [INP, CONF], "record lengths from days to years, thresholds, lists, inference sets, gappy records",
     "Tests use one record length and one threshold.",
     [SEL, SOLVE], [("selection", SEL + ":ut_cnstitsel"), ("record length", SOLVE + ":_slvinit")],
     "property-based testing: differential against the snapshot of the Rayleigh table, monotonicity relation",
     "Lengths within rounding of a threshold are not drawn on purpose.")
prop("C11", "Ordering of the constituents only permutes the results",
     "Whatever the requested order (energy, signal-to-noise, frequency, an explicit list, default), the solution contains "
     "the same constituents with the same parameters, limits and diagnostics, all per-constituent entries permuted "
     "together. The order is the one asked for, and predictions do not depend on it.",
     [INP, CONF], "all orders and permutations, any record and options, with and without limits or inference",
     "Tests check the order of names on a single record, not that all fields move together.",
     [SOLVE, DIAG], [("reordering", SOLVE + ":_reorder"), ("diagnostics", DIAG + ":ut_diagn")],
     "property-based testing: metamorphic (permutation of all fields)", "Ties in the sort key may come in any order.")
prop("C12", "reconstruct's constituent filters keep exactly what they document",
     "A prediction is mean and trend plus exactly the constituents with percent energy at least min_PE and "
     "signal-to-noise ratio at least min_SNR, or exactly those named in constit, which overrides the thresholds. Names "
     "that are absent add nothing, and filtering does not alter the solution.",
     [INP, CONF], "all thresholds (between, at and beyond the constituents' own values) and all subsets of names",
     "Tests never predict with thresholds or subsets other than the defaults.",
     [REC, DIAG], [("filters", REC + ":_reconstruct")],
     "property-based testing: metamorphic (sum of single-constituent predictions under the documented rule)",
     "Thresholds apply to solutions with confidence limits, as documented.")
prop("C13", "Linear confidence limits propagate the residual variance",
     "The linear limits of a solution are 1.96 standard errors obtained by first-order propagation of the residual "
     "variance (of the residuals and model times the weights, for a robust solution) through the normal equations to amplitude and phase or ellipse parameters. With a coloured "
     "floor that variance is taken, for each constituent, from the residual's spectrum averaged over its tidal band.",
     [INP, CONF], "all noisy records (regular, gappy, irregular), white and coloured floors, scalar and vector",
     "Tests only require that limits exist or compare one example loosely.",
     [CONFI, PER], [("limits", CONFI + ":_confidence"), ("propagation", CONFI + ":ut_linci"), ("spectra", PER + ":band_psd")],
     "property-based testing: differential against an independent covariance, spectrum and numerical Jacobian",
     "Follows the published normalisation of coloured spectra; u-v covariance is ignored as published.")
prop("C14", "Energy, SNR and the diagnostics table follow their definitions",
     "Percent energies are shares of the summed squared amplitudes (both axes), signal-to-noise ratios are squared "
     "amplitude over squared standard error, and the diagnostics table lists the same values for the same constituents. "
     "Scaling the data scales amplitudes and limits alike and changes neither, and adding a constant, a modelled trend or "
     "a fitted tide leaves the limits unchanged.",
     [INP, CONF], "all noisy records, scale factors of either sign, offsets, slopes, known tides, OLS and robust",
     "Tests only check that the diagnostic fields exist.",
     [DIAG, CONFI, SOLVE], [("diagnostics", DIAG + ":ut_diagn"), ("PE", DIAG + ":_PE"), ("SNR", DIAG + ":_SNR")],
     "property-based testing: recomputation oracle and metamorphic equivariance",
     "SNR uses the variance implied by the limits (limit/1.96).")
prop("C15", "Confidence limits cover the truth at the stated rate",
     "When the noise is Gaussian and white, the errors of the estimated parameters measured in units of the standard "
     "errors implied by the white-noise limits have unit variance, so the 95 percent limits contain the truth about 95 "
     "percent of the time. This holds for linear and Monte Carlo limits, scalar and vector data with different noise in "
     "each component, and for inferred constituents.",
     [INP, CONF], "all noise levels, records and constituents with white Gaussian noise, linear and MC limits",
     "A statistical statement over noise realisations; tests use one realisation.",
     [CONFI, SOLVE], [("limits", CONFI + ":_confidence")],
     "property-based testing: statistical oracle over generated noise realisations (pooled normalised errors)",
     "Acceptance bands are set wide enough for negligible false-alarm probability.")
prop("C16", "Monte Carlo limits agree with linear ones and are reproducible",
     "Monte Carlo limits are finite, positive and close to the linear limits for well-determined constituents, including "
     "phases and orientations near 0, 180 or 360 degrees. They are the spread of the parameters when the "
     "coefficients vary with the covariance of the fit (scaled to the residual spectrum unless white), reproducible for a "
     "given state of numpy's random generator, vary little between states, and do not change the estimates.",
     [INP, CONF], "all records, phases and orientations (wrap-around emphasised), random seeds, white and coloured floors",
     "Tests never compare Monte Carlo limits with anything.",
     [CONFI], [("Monte Carlo", CONFI + ":_confidence"), ("angle clustering", CONFI + ":cluster"),
      ("covariance repair", CONFI + ":nearestSPD")],
     "property-based testing: differential (linear limits; independent Monte Carlo) and metamorphic (seed) oracles",
     "Agreement within a factor of two for constituents with SNR above 50.")
prop("C17", "Inference keeps the prescribed relation and fits the rest with it",
     "Each inferred constituent has the prescribed amplitude ratio and phase offset to its reference (for vectors, "
     "separately in each rotary sense), and exact inference recovers the truth of a noise-free record that obeys the "
     "relation. With noise, references and all other constituents are the least-squares solution given the relation, "
     "approximate inference is the published correction, and inferred constituents carry the limits of their reference.",
     [INP, CONF], "1-3 references with 1-4 inferred constituents, ratios and offsets, exact and approximate, 1-D and 2-D",
     "Tests run one inference case and only require it to finish.",
     [SOLVE, CONFI, SEL], [("inference", SOLVE + ":_solv1"), ("option checks", SOLVE + ":validate_infer"),
      ("selection", SEL + ":ut_cnstitsel"), ("limits", CONFI + ":_confidence")],
     "property-based testing: relation oracle, synthesis oracle and independent stacked least squares",
     "Limits compared for linear confidence intervals.")
prop("C18", "Robust solutions are the documented reweighted least squares",
     "The robust method returns the fixed point, within its tolerance and iteration limit, of least squares reweighted "
     "with the chosen weight function of the residuals normalised by leverage, median scale and tuning constant; reported "
     "weights, residuals and leverages belong to the returned solution. Scaling the data, adding a modelled tide or moving "
     "the zero (by any amount the floating-point format can carry) takes the solution along and leaves the weights alone.",
     [INP, CONF], "all nine weight functions, tuning constants, tolerances, iteration limits, scalar and vector records",
     "Tests run the default weight function on one record.",
     [ROB, SOLVE], [("iteration", ROB + ":robustfit"), ("weight functions", ROB + ":andrews..welsch"),
      ("call", SOLVE + ":_solv1")],
     "property-based testing: differential against an independent IRLS implementation, equivariance relations",
     "Iteration-count ties within rounding are skipped.")
prop("C19", "A few gross outliers do not carry a robust solution away",
     "With up to ten percent of the samples replaced by arbitrarily large outliers, the robust solution (coefficients, "
     "prediction and white limits) stays within a few standard errors of the one without them, where ordinary least "
     "squares is arbitrarily wrong. Outliers get small weights, good samples keep large ones.",
     [INP, CONF], "all sizes (20 to 1e7 standard deviations) and patterns of outliers, default and other weight functions",
     "Tests contain no outliers at all.",
     [ROB, CONFI, SOLVE], [("iteration", ROB + ":robustfit"), ("scale", ROB + ":sigma_hat"), ("limits", CONFI + ":_confidence")],
     "property-based testing: generated outlier contamination against error bounds and an outlier-free fit",
     "Redescending functions (andrews, bisquare, welsch) are only claimed for scattered two-sided outliers; talwar not.")
prop("C20", "Malformed requests are refused, not answered",
     "A call with mismatched lengths, wrong dimensions, missing latitude, unknown options or settings, unknown "
     "constituents, inconsistent inference, an unusable or incomplete order, or an invalid epoch raises an error instead of returning a result. The "
     "refused call leaves its arguments unchanged and does not affect later valid calls.",
     [INP, CONF], "every valid call damaged in one of some twenty ways with drawn names, shapes and values",
     "Tests contain a handful of error cases for the order option only.",
     [SOLVE, REC, TIME, SEL], [("option checks", SOLVE + ":_process_opts"), ("inference checks", SOLVE + ":validate_infer"),
      ("order checks", SOLVE + ":validate_order_constit"), ("epoch", TIME + ":_normalize_time")],
     "property-based testing / fuzzing: mutation of valid calls, error expected",
     "Senseless but well-formed numbers (latitudes beyond the poles, a negative Rayleigh_min) are not among the damages.")
prop("C21", "Calls neither remember earlier calls nor touch their arguments",
     "The result of solve or reconstruct depends only on its arguments (and, for Monte Carlo, on numpy's random state), "
     "not on which calls, failures or modifications of returned values came before, nor on calls running in other "
     "threads. Arguments, including nested options and solutions passed in, and the public constant tables are never "
     "modified, and a call leaves the settings of the process (floating-point error handling, warning filters, print "
     "options, locale, working directory, random generators it does not need) as it found them.",
     [HIST, SCHED, INP], "all histories of solve, reconstruct, refused calls and edits of results, also in threads",
     "Tests make independent single calls.",
     [SOLVE, REC, TAB, HARM], [("options", SOLVE + ":_process_opts"), ("constants", TAB), ("cache", HARM + ":linearized_freqs")],
     "stateful property-based testing: drawn call histories and thread schedules against first-run results",
     "Thread schedules are sampled, not enumerated.")
prop("C22", "Solutions can be stored, and results do not depend on the process",
     "A solution that was pickled, copied or stored in a file and restored predicts the same values, and prediction in a "
     "fresh process from a stored solution equals prediction in the process that made it. The same analysis in another "
     "process, with another locale, time zone, hash seed or working directory, gives the same solution.",
     [HIST, CONF, INP], "all solutions (any options), storage formats, and process environments",
     "Tests never serialise a solution nor run a second process.",
     [UTIL, SOLVE, REC], [("Bunch", UTIL + ":Bunch"), ("prediction", REC + ":reconstruct"), ("constants", TAB)],
     "property-based testing: round trip through storage formats and fresh processes",
     "npz storage by numpy object arrays; a few environments are sampled.")
prop("C23", "Band-averaged residual spectra are what the limits are built on",
     "The spectral density reported for each tidal band is the average, over that band, of the Hann-windowed periodogram "
     "of equally spaced data or the Lomb-Scargle spectrum of irregular data, excluding lines at tidal constituents. It "
     "scales with the square of the data, ignores offsets and time origin, and treats u and v alike.",
     [INP, CONF], "all real and complex series, odd and even lengths, steps, regular or irregular times, line sets",
     "Tests compare one series with one stored result.",
     [PER], [("spectra", PER + ":band_psd"), ("band average", PER + ":fbndavg"), ("Lomb-Scargle", PER + ":_psd_lomb"),
      ("cross spectrum", PER + ":_ls_cross")],
     "property-based testing: differential against independent FFT / Lomb-Scargle computation, scaling relations",
     "Frequency bins within rounding of a band edge are skipped.")
prop("C24", "Bunch behaves as a dictionary with attribute access",
     "Bunch holds what a dictionary holds, items and attributes being the same thing, through any sequence of "
     "construction, assignment, deletion, updates and copies. Strict updates refuse unknown keys with KeyError and leave "
     "the contents as they were; value and None updates change only what they document. Reading a Python file adds the "
     "variables it defines, with the values they have there.",
     [HIST, INP], "all histories of Bunch operations",
     "Tests use Bunch only as a result container.",
     [UTIL], [("Bunch", UTIL + ":Bunch")],
     "stateful model-based testing against a plain dict model", "Keys are valid identifiers that are not dict methods.")
prop("C25", "Matlab and npz files load into the structures they hold",
     "Loading a Matlab file or an npz archive of structures gives nested bunches with the same names, values, scalars, "
     "strings and, where asked, masked missing values as were saved. Listing a loaded structure shows every leaf, and "
     "unicode conversion makes str of single strings and removes trailing blanks, nothing else.",
     [INP], "all nested structures of arrays, scalars and strings to depth three",
     "Tests load two given files.",
     [UTIL], [("loading", UTIL + ":loadbunch"), ("squeezing", UTIL + ":_crunch"), ("unicode", UTIL + ":convert_unicode_arrays")],
     "property-based testing: save/load round trip in a scratch directory", "Matlab 5 files written by scipy.")
prop("C26", "verbose=False is silent, and verbosity never changes results",
     "With verbose=False neither solve nor reconstruct writes to standard output or error, whatever the options and data; "
     "with verbose=True they report progress. Solutions and predictions are the same either way. No numerical warnings are "
     "raised where the constituents are resolved by the record.",
     [CONF, INP], "all combinations of options, records and verbosity",
     "Tests do not look at output.",
     [SOLVE, REC], [("messages", SOLVE + ":_solv1"), ("messages", REC + ":_reconstruct")],
     "property-based testing: metamorphic (verbosity) with captured output", "Both streams are captured inside the process.")
prop("C27", "Constituent tables and astronomical quantities are consistent",
     "The exposed table of constituents, its index and the frequency and period look-ups agree with each other and with "
     "the published values. Astronomical variables, their rates, nodal factors and phases, and Greenwich arguments agree "
     "with the published formulas for every constituent, date and latitude, whether evaluated singly or in bulk.",
     [INP, CONF], "all 146 constituents, dates 1700-2200, latitudes and option flags",
     "Tests compare stored values for a few dates at one latitude.",
     [HARM, ASTR, TAB], [("astronomy", ASTR + ":ut_astron"), ("FUV", HARM + ":FUV"), ("tables", TAB)],
     "property-based testing: differential against a long-double reference and a committed table snapshot",
     "M7's argument is excluded (known finding of C01 and C03).")

prop("C28", "Analysing a prediction gives back the solution it came from",
     "When the tide predicted from a solution is analysed with the same model, the same constituents come back with the "
     "same amplitudes, phases, mean and slope, whatever data, method, options or inference produced that solution. The "
     "residual of a least-squares analysis contains no tide, and a prediction of some constituents contains just those. "
     "With phases and nodal corrections at exact times the prediction may be made on any other well-conditioned grid.",
     [INP, CONF], "all noisy records, gaps, methods, options, inference, subsets of constituents and prediction grids",
     "Tests compare the hindcast of one series with the data, never a second analysis with the first.",
     [SOLVE, REC, HARM, ELL], [("analysis", SOLVE + ":_solv1"), ("prediction", REC + ":_reconstruct"),
      ("basis", HARM + ":ut_E")],
     "property-based testing: round trip solve -> reconstruct -> solve, with residual and subset variants",
     "Compared as cosine and sine coefficients on designs with condition number below 300.")
prop("C29", "A solution describes itself completely",
     "A solution has one entry per constituent in every field of its dimension; limits and signal-to-noise ratios exactly "
     "when limits were asked for, percent energies that add up to 100, a slope exactly when a trend was asked for, and one "
     "weight in [0, 1] per sample used. It records the latitude, reference time, frequencies, counts and options of the "
     "analysis, in the order of its constituents.",
     [INP, CONF], "all combinations of dimension, trend, limits, method, inference, selection, order, gaps and options",
     "Tests look at single fields of single solutions.",
     [SOLVE, SEL, DIAG, CONFI], [("solution", SOLVE + ":_solv1"), ("names and frequencies", SEL + ":ut_cnstitsel"),
      ("reordering", SOLVE + ":_reorder")],
     "property-based testing: structural invariants of the solution over drawn option combinations",
     "The presence of fields that are not documented is not restricted.")

prop("C30", "A prediction describes itself",
     "The result of reconstruct holds the very time argument (t_in), the times as days since 0000-12-31 (t_mpl; the same "
     "object when epoch is 'python'), and epoch, constit, min_SNR and min_PE as given or by default. A scalar solution gives "
     "h, a vector one u and v: new plain float arrays with one value per time, NaN exactly where the time is missing. "
     "Predicting for t_mpl with epoch 'python' and the recorded filters gives the same values again.",
     [INP, CONF], "all time representations with and without missing times, epochs, filters, positional and keyword calls",
     "Tests read only the series of a few predictions, never the other fields.",
     [REC, TIME], [("result", REC + ":reconstruct"), ("missing times", REC + ":_reconstruct"),
      ("time conversion", TIME + ":_normalize_time")],
     "property-based testing: structural invariants of the result, identity of the arguments, round trip through t_mpl",
     "Fields that are not documented are not restricted.")
prop("C31", "Well-posed requests on any finite data get finite answers",
     "However degenerate the data (zero, constant, exactly tidal, a single spike, two levels, huge or tiny, a component "
     "without any motion), a model that the times can resolve is analysed without an error by every method and limits "
     "option: estimates and predictions are finite and in proportion to the data, least squares is still least squares, "
     "limits are missing or not negative, and a component that is zero throughout has no tide.",
     [INP, CONF], "degenerate and extreme finite data, all methods, weight functions, limits, orders, gaps, inference",
     "Tests use a realistic series with noise; divisions by a vanishing residual or spread never happen in them.",
     [SOLVE, CONFI, ROB, DIAG, REC], [("robust scale", ROB + ":robustfit"), ("limits", CONFI + ":_confidence"),
      ("diagnostics", DIAG + ":_PE"), ("analysis", SOLVE + ":_solv1")],
     "property-based testing: degenerate data generators, finiteness and proportion invariants, least-squares oracle",
     "Values up to 1e30 and designs with condition number below 1000; limits may be NaN where there is nothing to relate to.")
prop("C32", "The order of the samples carries no information",
     "Each sample is a time with its value or values. Solving the same samples in any other order (descending, shuffled, "
     "deployments appended out of order), also with several samples at one time, gives the same constituents, parameters, "
     "mean, trend, reference time and limits, and the same predictions; the weights follow the samples as given.",
     [INP, CONF], "all records, permutations of their samples, missing samples and analysis options",
     "Tests use records in chronological order only.",
     [SOLVE, CONFI, PER], [("reference time and sampling", SOLVE + ":_slvinit"),
      ("residual spectrum", CONFI + ":band_averaged_psd_by_constit")],
     "property-based testing: metamorphic relation between permutations of one record",
     "Monte Carlo limits of equal seeds are compared within a factor, the rest to rounding.")

PY = "/opt/venv/bin/python"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": f"{PY} harness/run.py --selftest",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"{PY} harness/run.py {p['id']} --tier quick",
        "thorough_cmd": f"{PY} harness/run.py {p['id']} --tier thorough",
        "technique": p["tech"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks: every check drives the public API of the package in /repo. Violations shrink to a JSON case "
             "that 'run.py <ID> --replay FILE' re-executes.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
