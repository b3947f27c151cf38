# executed by meta.py: one prop(...) per property
NOTE = ("Sampled, not exhaustive: holds on every generated case of the run. "
        "Trusts the Python 2 emulation of vlib/loader.py and the stated "
        "oracle. ")

prop("C01", "Filling puts the whole weight in the bin of the values",
     "Filling a spectrum with a value for each of its dimensions increases "
     "exactly one bin - the one whose range contains the values (lower edge "
     "included, upper edge excluded) - by exactly the weight given (1 by "
     "default), whatever the order in which the values are named. A value "
     "outside the range of its dimension, or a missing value, is rejected "
     "with an error and leaves the spectrum unchanged. After any sequence of "
     "fills every bin holds the sum of the weights which fell into it.",
     [INPUTS, HIST],
     "all axes (any bounds, number of bins, up to 3 dimensions in any order), "
     "all values in and out of range, on and next to bin edges, all weights "
     "and all sequences of accepted and rejected fills",
     "The tests fill a few hand-picked values of one configuration; which "
     "bin a value falls in depends on every bound, width, rounding and "
     "dimension order.",
     ["echidna/core/spectra.py", "echidna/core/parameter.py"],
     [("Spectra.fill", "echidna/core/spectra.py"),
      ("SpectraParameter.get_bin", "echidna/core/parameter.py")],
     "property-based testing (Hypothesis) against a reference histogram",
     NOTE + "Values closer than rounding error to an edge may fall on either "
     "side.", ["Spectra.get_data", "Spectra.sum"])

prop("C02", "Binning and contents stay consistent over any history",
     "After any sequence of filling, scaling, shrinking, cutting, taking a "
     "region of interest, rebinning, adding and copying - rejected requests "
     "included - the reported dimensions, bounds, bins, bin edges and shape "
     "describe the contents, and contents and number of decays equal those "
     "of a reference histogram put through the same steps. A copy and its "
     "original never influence each other.",
     [HIST],
     "all sequences of operations (up to 16 steps, thorough: many more "
     "sequences) on spectra of 1 to 3 dimensions",
     "The tests apply single operations to fresh spectra; drift between "
     "config and data needs a sequence, often with a rejected step in it.",
     ["echidna/core/spectra.py", "echidna/core/config.py",
      "echidna/core/parameter.py"],
     [("Spectra.shrink/cut/rebin/add/scale/__copy__",
       "echidna/core/spectra.py"),
      ("SpectraConfig", "echidna/core/config.py")],
     "stateful model-based testing (Hypothesis operation sequences) against "
     "a reference histogram", NOTE,
     ["Spectra.get_data", "Spectra.get_config", "Spectra.get_num_decays"])

prop("C03", "Shrinking keeps exactly the bins of the requested range",
     "Shrinking a spectrum to bounds which lie on bin edges (any dimensions, "
     "lower bound, upper bound or both) keeps exactly the bins inside with "
     "their contents and edges (a bound within a bin keeps that bin); "
     "cutting does the same and scales the number "
     "of decays by the fraction of contents kept; a region of interest does "
     "the same and records its bounds and that fraction as its efficiency. "
     "Bounds outside the spectrum, unknown dimensions and upper bounds below "
     "the lower bound are rejected and change nothing.",
     [INPUTS],
     "all axes, all ranges of bins (given with rounding error), all subsets "
     "of dimensions and bounds, all contents",
     "The tests shrink one spectrum to two ranges; off-by-one bins depend on "
     "the rounding of each bound and width.",
     ["echidna/core/spectra.py", "echidna/core/parameter.py"],
     [("Spectra.shrink, cut, shrink_to_roi", "echidna/core/spectra.py"),
      ("SpectraParameter.round", "echidna/core/parameter.py")],
     "property-based testing (Hypothesis) against slices of a reference "
     "array", NOTE, ["Spectra.get_data", "Spectra.get_roi"])

prop("C04", "Rebinning merges whole groups of bins and loses nothing",
     "Rebinning to numbers of bins which divide the present ones makes every "
     "new bin the sum of the bins it covers, keeps the bounds, the total and "
     "the number of decays. Rebinning in several steps equals rebinning at "
     "once. Numbers which do not divide, or do not match the dimensions, are "
     "rejected and change nothing.",
     [INPUTS],
     "all shapes up to 3 dimensions, all divisors, all wrong requests, all "
     "contents",
     "The tests rebin one shape; the reshape/sum depends on every dimension.",
     ["echidna/core/spectra.py"],
     [("Spectra.rebin", "echidna/core/spectra.py")],
     "property-based testing (Hypothesis) against block sums and a "
     "multi-step metamorphic relation", NOTE, ["Spectra.get_data"])

prop("C05", "Projections are the sums over the other dimensions",
     "Projecting a spectrum onto one dimension, onto several or onto a "
     "surface of two gives, for every bin of those dimensions, the sum of "
     "the contents over all other dimensions, in the dimension order of the "
     "spectrum whatever the order they are named in, so every projection "
     "has the total of the spectrum. The interpolation of a projection passes "
     "through its value at every bin centre. Asking for any of them leaves "
     "the spectrum unchanged.",
     [INPUTS],
     "all spectra of 1 to 3 dimensions in any order, every choice of "
     "dimensions, all contents",
     "The tests look at one symmetric configuration where summing over the "
     "wrong axis gives the same shapes.",
     ["echidna/core/spectra.py"],
     [("Spectra.project, nd_project, surface, interpolate1d",
       "echidna/core/spectra.py")],
     "property-based testing (Hypothesis) against cell-by-cell sums", NOTE,
     ["Spectra.project", "Spectra.nd_project", "Spectra.surface"])

prop("C06", "Scaling to a number of decays and adding spectra",
     "Scaling a spectrum to a number of decays multiplies every bin by the "
     "ratio of the new number to the present one and makes it the number of "
     "decays; several scalings equal the last one. Adding a spectrum adds "
     "its contents bin by bin, its decays and its raw events, matching "
     "dimensions by name even if they are in another order, and leaves the "
     "added spectrum unchanged. Spectra with different bounds, bins or "
     "dimensions are rejected and nothing changes.",
     [INPUTS],
     "all spectra, all positive numbers of decays, all pairs of spectra with "
     "the same axes in any order and all with a single difference",
     "The tests add and scale one spectrum of one configuration.",
     ["echidna/core/spectra.py"],
     [("Spectra.scale, add", "echidna/core/spectra.py")],
     "property-based testing (Hypothesis) against array arithmetic and "
     "metamorphic relations", NOTE, ["Spectra.get_data",
                                     "Spectra.get_num_decays"])

prop("C07", "Shifting a dimension moves its contents by the shift",
     "Shifting a dimension of a spectrum by a whole number of bins moves the "
     "contents by exactly that many bins along that dimension and drops what "
     "leaves the range. By any other amount, each bin takes its share of the "
     "interpolated projection at its centre minus the shift, spread over the "
     "other dimensions like the bins it overlaps, and the total is kept as "
     "long as anything remains in range. Contents are never negative or "
     "undefined, bounds and number of decays stay, and the spectrum shifted "
     "is left unchanged.",
     [INPUTS],
     "all axes, positions of the shifted dimension, shifts by whole and "
     "fractional bins in both directions up to beyond the range, all "
     "contents, spline orders 1 to 3",
     "The tests shift one smooth spectrum of one configuration by a few "
     "values.",
     ["echidna/core/shift.py", "echidna/core/spectra.py"],
     [("Shift.shift, shift_by_bin", "echidna/core/shift.py")],
     "property-based testing (Hypothesis) against a reference model of "
     "interpolated moving", NOTE + "Shares of overlapping bins are compared "
     "as mixtures; bins whose source is within rounding of the range limits "
     "are skipped.", ["Shift.shift", "Shift.shift_by_bin"])

prop("C08", "Scaling a dimension moves its contents by the factor",
     "Scaling a dimension of a spectrum by a positive factor gives each bin "
     "its share of the interpolated projection at its centre divided by the "
     "factor, spread over the other dimensions like the bins it comes from, "
     "and keeps the total as long as anything remains in range; a factor of "
     "one changes nothing. Contents are never negative or undefined, bounds "
     "and number of decays stay, and the spectrum scaled is left unchanged. "
     "A factor of zero or less is rejected.",
     [INPUTS],
     "all axes, positions of the scaled dimension, factors, all contents, "
     "spline orders 1 to 3",
     "The tests scale one smooth spectrum of one configuration by a few "
     "factors.",
     ["echidna/core/scale.py", "echidna/core/spectra.py"],
     [("Scale.scale", "echidna/core/scale.py")],
     "property-based testing (Hypothesis) against a reference model of "
     "interpolated moving", NOTE + "Shares of overlapping bins are compared "
     "as mixtures; bins whose source is within rounding of the range limits "
     "are skipped.", ["Scale.scale"])

prop("C09", "Weighted smearing spreads each bin by the detector resolution",
     "Weighted smearing of a dimension replaces the content of each bin by a "
     "Gaussian (or, if chosen, Poisson) distribution over the bins of that "
     "dimension, evaluated at the bin centres, centred on the bin, with the "
     "width the set resolution prescribes there (sqrt(E/light yield), "
     "resolution * sqrt(E), or a constant radial resolution), cut off at the "
     "bins nearest to the set number of sigma and at the range, and "
     "normalised to the content of the bin. Everything else - distribution "
     "over the other dimensions, decays, raw events, bounds, and the spectrum "
     "smeared - stays as it is, and an unknown dimension is rejected. "
     "Resolutions and numbers of sigma out of range are rejected without "
     "effect, and the resolution computed to degrade an already smeared "
     "spectrum adds in quadrature to the current one to give the wanted one.",
     [INPUTS, CONF],
     "all three smearers, gaussian and poisson, all resolutions from a tenth "
     "to many bins, windows of 0.5 to 7 sigma, all spectra of 1 to 3 "
     "dimensions, all positions of the dimension",
     "The tests smear a delta function in the middle of one configuration; "
     "range ends, last bins, narrow windows and other dimensions are never "
     "reached.",
     ["echidna/core/smear.py"],
     [("EnergySmearLY, EnergySmearRes, RadialSmear .weighted_smear",
       "echidna/core/smear.py")],
     "property-based testing (Hypothesis) against a reference convolution",
     NOTE + "Window ends and photon numbers which rounding decides may go "
     "either way.", ["weighted_smear", "calc_smear_ly",
                     "calc_smear_resoluton"])

prop("C10", "Random smearing throws one entry per count from the resolution",
     "Randomly smearing a dimension of a spectrum with whole-number contents "
     "replaces each count by one entry (of weight one) at a value drawn from "
     "the Gaussian, or Poisson if chosen, distribution around its bin centre "
     "with the width of the set resolution, folded to positive values; "
     "entries out of range are dropped and none are added. The other "
     "dimensions of an entry stay, as do decays, raw events and bounds, and "
     "the spectrum smeared is left unchanged.",
     [INPUTS],
     "all three smearers, gaussian and poisson, all resolutions, all spectra "
     "of 1 to 3 dimensions, sampled with thousands of entries",
     "The tests draw from a delta function of one configuration and fit its "
     "width; range ends, other dimensions and radial smearing are never "
     "reached.",
     ["echidna/core/smear.py"],
     [("random_smear of the three smearers", "echidna/core/smear.py")],
     "property-based testing (Hypothesis) with a seeded generator against "
     "the exact distribution of the bin counts (7 sigma)",
     NOTE + "Statistical: distortions of the distribution below about 7 "
     "sigma of thousands of entries pass.", ["random_smear"])

prop("C11", "The bins of a spectral dimension tile its range",
     "The bins of a dimension have equal width and tile its range from the "
     "lower to the upper bound without gaps: edges, centres, width and "
     "number of bins agree with each other, the bin of a value is the one "
     "whose edges enclose it, and rounding a value gives the nearest edge. "
     "Values outside the range and bins which do not exist are rejected. "
     "Changing bounds or bins changes all of these together.",
     [INPUTS],
     "all bounds, widths and numbers of bins, all values inside, outside, on "
     "and next to edges, all sequences of changes",
     "The tests only use a few values of one configuration.",
     ["echidna/core/parameter.py"],
     [("SpectraParameter", "echidna/core/parameter.py")],
     "property-based testing (Hypothesis) against computed edges",
     NOTE + "Values within rounding error of an edge may go either way.",
     ["get_bin", "get_bin_boundaries", "get_bin_centres", "round"])

prop("C12", "The value grid of a fit parameter is what was asked for",
     "A fit parameter offers exactly the requested number of increasing "
     "values, the first the lower and the last the upper end: equally "
     "spaced, equally spaced in the logarithm (a lower end of zero or less "
     "is replaced by the inverse of the upper end), or with logarithmically "
     "growing deviations around the prior, which is then one of them. Value, "
     "index and bin look-ups invert each other, and after any change of its "
     "settings the grid is that of the new settings. A grid which lacks the "
     "prior or has negative rates is warned of, and asking for a current "
     "value, best fit or penalty which is not set is an error.",
     [INPUTS, HIST],
     "all ends, priors, numbers of values from 2 (3 around a prior) to 24, "
     "all three spacings, scales from 1e-10 to 1e3, all sequences of changes",
     "The tests use a few linear grids only.",
     ["echidna/core/parameter.py"],
     [("FitParameter.get_values, set_par, check_values, get_bin",
       "echidna/core/parameter.py")],
     "property-based testing (Hypothesis) against closed-form grids", NOTE,
     ["FitParameter.get_values"])

prop("C13", "A fit parameter applies its systematic with its current value",
     "Applying a rate gives the spectrum scaled to that many decays, a "
     "resolution smears its dimension by the weighted Poisson method (a "
     "value above 10 is a light yield, else an energy resolution), a scale "
     "or shift scales or shifts its dimension; the last three leave the "
     "spectrum given unchanged. Without a current value each is an error. "
     "The directory for pre-made spectra is that of the dimension plus "
     "smear/, scale/ or shift/ (once per dimension), the file name gets the "
     "value followed by ly or rs, sc or sh, which replaces an earlier one of "
     "the same kind.",
     [INPUTS],
     "all values, dimensions, spectra of 1 to 3 dimensions, all orders and "
     "combinations of systematics in names, values of any magnitude",
     "The tests only do this inside one fit with one value per kind.",
     ["echidna/core/parameter.py"],
     [("RateParameter, ResolutionParameter, ScaleParameter, ShiftParameter",
       "echidna/core/parameter.py")],
     "property-based testing (Hypothesis) against reference transformations "
     "of a histogram and a model of the names",
     NOTE + "Values with over 12 significant digits are left out of names "
     "(str(float) of Python 2).", ["apply_to", "get_pre_convolved"])

prop("C14", "The test statistics are the formulae they are named after",
     "For arrays of observed and expected counts of equal length each test "
     "statistic returns the sum over bins of its formula (Baker-Cousins chi "
     "squared and likelihood, Neyman and Pearson chi squared, extended "
     "likelihood), and per bin the array of terms; empty bins give the "
     "documented finite limit, and the chi squared for upper limits ignores "
     "bins with more observed than expected. The same arguments always give "
     "the same result. Penalty terms are the squared number of sigmas from "
     "the prior (half of it for BakerCousinsLL), and arrays of other "
     "dimensions or different lengths are rejected.",
     [INPUTS],
     "all counts including zero, tiny and large ones, all lengths, all "
     "shapes, both modes, all penalties",
     "The tests compute one pair of arrays per statistic, without zeros in "
     "most of them.",
     ["echidna/fit/test_statistic.py"],
     [("TestStatistic and subclasses", "echidna/fit/test_statistic.py")],
     "property-based testing (Hypothesis) against the formulae", NOTE +
     "Six defects are recorded as known findings and their inputs left out.",
     ["compute_statistic", "get_penalty_term"])

prop("C15", "The grid search tries every combination and finds the minimum",
     "Minimising calls the function once for every combination of values of "
     "the fit parameters, in the order of the parameters, and keeps each "
     "result and penalty at the place of its values. The best fits are the "
     "values at the lowest total of statistic and penalty (the first of "
     "equal ones, never a NaN), with their penalty terms, and that result "
     "is returned; both ways of finding the minimum agree. Statistics per "
     "bin, projections, look-ups by index or by value and the summary "
     "describe the same grid, resets clear it, and results or grids of the "
     "wrong kind or shape are rejected.",
     [INPUTS, HIST],
     "1 to 3 parameters of all spacings, tables of results with ties and "
     "NaNs, in total or per bin of 1 or 2 dimensions, repeated searches",
     "The tests minimise one paraboloid on one grid.",
     ["echidna/fit/minimise.py", "echidna/fit/fit_results.py"],
     [("GridSearch.minimise, find_minimum", "echidna/fit/minimise.py"),
      ("FitResults", "echidna/fit/fit_results.py")],
     "property-based testing (Hypothesis) with tabulated statistics against "
     "an exhaustive minimum", NOTE + "get_penalty_terms at given values of "
     "several parameters is not checked.", ["GridSearch.minimise"])

prop("C16", "A fit compares data with the sum of what it was given",
     "At each combination of parameter values the expected counts a fit "
     "hands to its test statistic are the fixed background plus each "
     "floating background, with every global systematic applied in order to "
     "its value and then scaled to its rate, plus the signal with the same "
     "systematics scaled to its number of decays, all within the region of "
     "interest and in the data's binning; the observed counts are the data's. "
     "The result is that statistic with the sum of penalty terms, the best "
     "fit is the best of all combinations, evaluating changes none of the "
     "user's spectra, and repeating or reordering evaluations, or replacing "
     "spectra, gives what a new fit would give. Incomplete or incompatible "
     "input is rejected.",
     [INPUTS, HIST],
     "1 to 2 dimensions, 0 to 3 floating backgrounds, 0 to 3 global "
     "systematics, with and without fixed background and signal, finer or "
     "wider spectra than the region of interest, per bin or not, repeated and "
     "reordered evaluations and replaced spectra",
     "The tests never run a fit with systematics; whether state leaks between "
     "evaluations needs sequences of them.",
     ["echidna/fit/fit.py", "echidna/core/config.py", "echidna/core/spectra.py"],
     [("Fit._funct, fit, set_*, make_fixed_background",
       "echidna/fit/fit.py"), ("Fit._convolve and caches",
                               "echidna/fit/fit.py")],
     "model-based property-based testing (Hypothesis): whole fits against an "
     "independent model built from reference histogram operations", NOTE +
     "A signal without global systematics is generated in the data's binning.",
     ["arguments of TestStatistic.compute_statistic", "Fit.fit"])

prop("C17", "Pre-made spectra give the fit that convolving gives",
     "A fit which loads spectra made beforehand by applying the systematics "
     "at each value (found by the directory and file naming convention, below "
     "the directory of each spectrum or below a base directory, with or "
     "without a trailing slash) hands the same expected and observed counts "
     "to its test statistic, and returns the same results and penalties, as "
     "the fit which applies them itself; it does so whatever number of decays "
     "the stored spectra have, again when repeated, and after the signal was "
     "scaled.",
     [INPUTS],
     "fits of C16 with 1 to 3 systematics of different kinds, all ways to "
     "give the directory, stored spectra of another scale",
     "The tests never load pre-made spectra.",
     ["echidna/fit/fit.py", "echidna/core/parameter.py",
      "echidna/output/store.py"],
     [("Fit.load_pre_made, set_pre_made_dir", "echidna/fit/fit.py"),
      ("FitParameter.get_pre_convolved", "echidna/core/parameter.py")],
     "differential property-based testing (Hypothesis): the same fit with "
     "and without pre-made spectra", NOTE + "Systematics of one kind in two "
     "dimensions are a known finding and left out.",
     ["arguments of TestStatistic.compute_statistic", "Fit.fit"])

prop("C18", "A limit is the first signal which the data exclude",
     "Setting a limit fits the backgrounds at every signal scale and reports "
     "the first scale, from the best one on, at which the test statistic "
     "relative to the fit without signal (or to the minimum given), with "
     "penalty terms, exceeds the limit value; if none does it is an error. "
     "The statistics, best fits and penalty terms kept for each scale are "
     "those of the fit at that scale. With storing asked for, results, fits "
     "or spectra are found again in the files, and no file is written "
     "otherwise. A limit from an array of statistics is the scale of its "
     "first entry whose sum exceeds the limit.",
     [INPUTS],
     "fits of C16 with and without floating backgrounds and systematics, per "
     "bin or not, 1 to 7 scales in both spacings, every position of the limit "
     "value, every way of storing",
     "The tests never set a limit.",
     ["echidna/limit/limit.py", "echidna/fit/fit.py",
      "echidna/fit/fit_results.py", "echidna/output/store.py"],
     [("Limit.get_limit, get_array_limit, get_statistics",
       "echidna/limit/limit.py"), ("LimitResults",
                                   "echidna/fit/fit_results.py")],
     "property-based testing (Hypothesis) against a brute-force limit of the "
     "model of C16", NOTE + "Cases whose best fit or minimum is a tie within "
     "rounding are skipped.", ["Limit.get_limit", "LimitResults", "files"])

prop("C19", "Results of fits and limits keep every value at its place",
     "Best fits and penalty terms set for a parameter at a signal scale, test "
     "statistics set for a scale, and fits set for a scale are returned for "
     "that parameter and scale by every getter, and only there; the full "
     "statistic of a scale is the sum of its statistic (over all bins, if per "
     "bin) and its penalty terms. The summary of a fit has the best fit and "
     "penalty of each parameter in order, or is an error if one is not set. "
     "Names and configurations are those given, or the documented defaults.",
     [HIST],
     "0 to 4 parameters, 1 to 6 scales, per bin or not, all sequences of "
     "settings",
     "The tests never use limit results.",
     ["echidna/fit/fit_results.py"],
     [("LimitResults, FitResults", "echidna/fit/fit_results.py")],
     "stateful model-based testing (Hypothesis) against plain arrays", NOTE,
     ["getters of LimitResults", "FitResults.get_summary"])

prop("C20", "Configurations survive being dumped to dictionaries",
     "Loading what dump returns - directly or by way of JSON - gives a "
     "configuration with the same parameters, order (within a dimension, for "
     "global parameters), kinds, dimensions, settings, values and fit results "
     "(not with basic), and dumping changes nothing. Parameters are found by "
     "name and index. Adding a configuration to a global one adds all its "
     "parameters, replacing those of the same name, those of a spectrum under "
     "its name. Dictionaries in the documented format load as written, others "
     "are rejected.",
     [INPUTS],
     "all numbers of dimensions, systematics in any order and rates, all "
     "spacings, with and without results of a fit",
     "The tests check bounds of one configuration.",
     ["echidna/core/config.py", "echidna/core/parameter.py"],
     [("SpectraConfig, SpectraFitConfig, GlobalFitConfig: dump, load, "
       "add_config", "echidna/core/config.py"),
      ("Parameter.to_dict", "echidna/core/parameter.py")],
     "property-based testing (Hypothesis): round trips", NOTE,
     ["dump", "load", "getters of configs and parameters"])

prop("C21", "Configurations survive being written to YAML files",
     "A configuration written to a file (any path, default, given or blank "
     "file name; global and spectral parameters in two files) and loaded from "
     "it has the same parameters, order, kinds, settings and fit results as "
     "before, and the name given, or the documented default, or that of the "
     "file. Exactly the documented files are written. Files in the style of "
     "the examples load as they read, and any tree of ordered dictionaries, "
     "lists and scalars survives with its order.",
     [INPUTS],
     "all configurations of C20, names, paths, handwritten files and trees",
     "The tests load two example files and never write one.",
     ["echidna/core/config.py", "echidna/util/yaml_loader.py"],
     [("dump_to_file, load_from_file", "echidna/core/config.py"),
      ("ordered_dump, ordered_load", "echidna/util/yaml_loader.py")],
     "property-based testing (Hypothesis): round trips", NOTE +
     "PyYAML 6 instead of the PyYAML 3 of the time.",
     ["files", "getters of configs and parameters"])

prop("C22", "A stored spectrum is loaded as it was",
     "Storing a spectrum and loading it gives the same contents, dimensions, "
     "name, background name, number of decays, raw events, flags, style, "
     "regions of interest and fit configuration, and storing changes nothing. "
     "After any sequence of storing with and without appending and "
     "overwriting, each group of a file holds the spectrum last stored there; "
     "a group which exists is not replaced unless asked for, and a missing "
     "one is an error. Files of the first format still load.",
     [INPUTS, HIST],
     "spectra of 1 to 3 dimensions with any contents and attributes, files "
     "with up to 3 groups and 8 steps",
     "The tests store one spectrum.",
     ["echidna/output/store.py", "echidna/core/spectra.py"],
     [("dump, load, _load_old, dict_to_string, string_to_dict",
       "echidna/output/store.py"),
      ("Spectra.get_background_name", "echidna/core/spectra.py")],
     "property-based and model-based testing (Hypothesis): round trips", NOTE +
     "h5py is not installed: a strict stand-in (vlib/fakes.py) is used.",
     ["store.load"])

prop("C23", "Stored results of fits and limits are loaded as they were",
     "Storing the results of a fit or of setting a limit and loading them "
     "gives the same statistics, penalty terms, best fits, scales, names, "
     "configurations and - if kept - the fit at each scale with its own best "
     "fits and penalties, every value at its parameter whatever the order of "
     "parameters; again if stored again, and next to other contents of the "
     "file. Statistics which do not fit the configurations are rejected. "
     "Objects of arrays are restored likewise.",
     [INPUTS],
     "results with 0 to 5 parameters in any order, per bin or not, with any "
     "fits kept",
     "The tests never store results.",
     ["echidna/output/store.py", "echidna/fit/fit_results.py",
      "echidna/fit/minimise.py"],
     [("dump_fit_results, load_fit_results, dump_limit_results, "
       "load_limit_results, dump_ndarray, load_ndarray",
       "echidna/output/store.py")],
     "property-based testing (Hypothesis): round trips", NOTE +
     "h5py is not installed: a strict stand-in (vlib/fakes.py) is used.",
     ["store.load_fit_results", "store.load_limit_results"])

prop("C24", "Conversions between half-life, counts and mass are consistent",
     "Each conversion of DBIsotope (number of atoms, activity, counts, "
     "half-life, effective mass) gives the documented formula for any "
     "combination of arguments and defaults - an argument of zero is an "
     "argument - and every pair of conversions undoes itself, for whole "
     "numbers as well. Unphysical arguments are errors, when the isotope is "
     "made and when it is used.",
     [INPUTS],
     "all isotopes, detectors, loadings, livetimes and amounts within several "
     "orders of magnitude, every subset of the optional arguments",
     "The tests compute a few numbers of one isotope with the defaults.",
     ["echidna/calc/decay.py", "echidna/calc/constants.py"],
     [("DBIsotope", "echidna/calc/decay.py")],
     "property-based testing (Hypothesis): formulas and round trips", NOTE,
     ["return values of DBIsotope's methods"])

prop("C25", "Extractors take the right value of just the valid events",
     "For every dimension, kind (truth, mc, reco) and cut (fiducial volume, "
     "external, outer radius) an extractor accepts an ntuple entry or event "
     "of a RAT file exactly if it has the simulation or a valid fit of the "
     "quantity which is asked for and lies within the fiducial volume, and "
     "extracts the documented quantity: quenched or deposited or fitted "
     "energy, radius, cube of the radius over the outer radius, with the sign "
     "of z for zradial3. Nothing which is not in the event is asked for. "
     "Combinations which make no sense, and unknown names, are errors.",
     [INPUTS],
     "all extractors with every combination of cuts; events with and without "
     "particles, triggers, fits and valid quantities",
     "The tests need ROOT files and cannot run without ROOT.",
     ["echidna/core/dsextract.py"],
     [("function_factory, EnergyExtract*, Radial*Extract*, ZRadial*Extract*",
       "echidna/core/dsextract.py")],
     "property-based testing (Hypothesis) against rules from the "
     "documentation", NOTE +
     "ROOT and RAT are not installed: stand-ins (checks/_rat.py) are used.",
     ["get_valid_ntuple, get_value_ntuple, get_valid_root, get_value_root"])

prop("C26", "Spectra are filled from files with all selected events",
     "A spectrum filled from ntuples or RAT files, at once or appending file "
     "by file, has each event which is valid for all its dimensions and in "
     "range once, in the bin of its values, and no other; with the BiPo cut "
     "also none of the events with a retrigger. The number of decays is the "
     "number of simulated entries read, the raw events those filled, and "
     "name, configuration and cut flag are those given. Incomplete or unknown "
     "requests are errors.",
     [INPUTS, HIST],
     "1 to 3 dimensions of all kinds, all cuts, 1 to 3 files of up to 8 "
     "entries, new spectra and appending",
     "The tests need ROOT files and cannot run without ROOT.",
     ["echidna/core/fill_spectrum.py", "echidna/core/dsextract.py"],
     [("fill_from_ntuple, fill_from_root", "echidna/core/fill_spectrum.py")],
     "property-based testing (Hypothesis) against a reference histogram",
     NOTE + "ROOT and RAT are not installed: stand-ins (checks/_rat.py) are "
     "used.", ["Spectra.get_data", "get_num_decays"])

prop("C27", "Scripts write the documented files and nothing else",
     "The scripts which scale, shift, shrink, rebin, smear and combine stored "
     "spectra, and those which make them from ntuples and RAT files (single "
     "files, lists of files, directories), write the documented file names - "
     "next to the input, into the given directory or to the given path, for "
     "bare names and paths with dots as well - with the result of the "
     "operation in them, and change no other file. Incomplete or wrong "
     "requests write nothing. The errors of arrays calculated for axes have "
     "the shape of the array and documented values.",
     [INPUTS],
     "all options of the scripts, any spectra, file names and places",
     "No test runs a script.",
     ["echidna/scripts/dump_scaled.py", "echidna/scripts/dump_shifted.py",
      "echidna/scripts/dump_shrink.py", "echidna/scripts/rebin.py",
      "echidna/scripts/combine_hdf5.py", "echidna/scripts/dump_smeared.py",
      "echidna/scripts/dump_smeared_energy.py",
      "echidna/scripts/dump_spectra_ntuple.py",
      "echidna/scripts/dump_spectra_root.py",
      "echidna/scripts/multi_ntuple_spectrum.py", "echidna/utilities.py"],
     [("main, __main__", "echidna/scripts/dump_scaled.py"),
      ("read_and_dump_ntuple", "echidna/scripts/dump_spectra_ntuple.py"),
      ("create_combined_ntuple_spectrum",
       "echidna/scripts/multi_ntuple_spectrum.py"),
      ("get_array_errors", "echidna/utilities.py")],
     "property-based testing (Hypothesis): differential against the library "
     "and reference models", NOTE +
     "h5py, ROOT and RAT are stand-ins; random smearing is compared with the "
     "same random numbers.", ["files of a scratch directory"])

prop("C28", "Plots show the contents of spectra and results",
     "Projections, surfaces and spectral plots (matplotlib and ROOT) have the "
     "axes of the dimensions asked for, in any order of dimensions, and bins "
     "which hold the sum over all others; spectral plots contain every "
     "spectrum, their sum and the sum of the backgrounds. Graphs and plots of "
     "limits and fits show each value at its scale or parameter value. "
     "Plotting changes nothing that is plotted.",
     [INPUTS],
     "spectra of 1 to 3 dimensions, results with up to 3 parameters, per bin "
     "or not",
     "The tests do not plot.",
     ["echidna/output/plot.py", "echidna/output/plot_root.py"],
     [("plot_projection, plot_surface, spectral_plot",
       "echidna/output/plot.py"),
      ("plot_projection, plot_surface, spectral_plot, plot_stats_vs_scale, "
       "plot_best_fit_vs_scale, plot_sigma_best_fit_vs_scale, "
       "plot_penalty_term_vs_scale, plot_raw_stats_vs_par_scale, "
       "plot_raw_stats_vs_pars, plot_per_bin",
       "echidna/output/plot_root.py")],
     "property-based testing (Hypothesis): what recording stand-ins were "
     "given against reference projections", NOTE +
     "matplotlib and ROOT are stand-ins (checks/_plots.py) which record what "
     "is drawn: rendering is not looked at.", ["histograms and graphs drawn"])

prop("C29", "Messages reach the log file and the terminal as they are set",
     "After start_logging every message of any logger and level is in one "
     "log file in log_save_path, named after the script, host and process as "
     "the options say, with its level; the terminal shows exactly the "
     "messages of log_level and above, once, those of the extra logger (and "
     "below it) without a name. Starting again adds neither a file nor a "
     "second copy of messages. Warnings are in the file if they are captured, "
     "and are raised in cautious mode only. A missing directory is an error "
     "and nothing is written. Timer measures the block, also one which "
     "fails, without hiding its error; ids have the length and characters "
     "asked for.",
     [HIST, CONF],
     "settings of the user profile and options, sequences of messages, "
     "warnings and repeated starts",
     "No test starts logging; two tests' output is never looked at.",
     ["echidna/utilities.py", "echidna/settings.py",
      "echidna/util/strings.py"],
     [("start_logging, DispatchingFormatter, Timer", "echidna/utilities.py"),
      ("user_profile", "echidna/settings.py"),
      ("id_generator", "echidna/util/strings.py")],
     "property-based testing (Hypothesis): sequences of messages against a "
     "model of the file and the terminal", NOTE +
     "colorlog is a stand-in without colours.",
     ["the log file and what is printed"])
