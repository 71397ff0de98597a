#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
S = "src/mcsas3/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=[S + f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


p("C01", "1D clipping and omission keep exactly the wanted points",
  "For any 1D dataset, data range and list of omitted Q ranges, the clipped data are exactly the loaded points that have no missing value, satisfy lower <= Q < upper and lie in none of the omitted lo <= Q < hi ranges, with their values and order unchanged, however the rows of the table are labelled. A data range that contains no point is rejected with an error instead of being fitted. The loaded raw data and the table passed in by the caller are never altered by this.",
  ["inputs", "configurations"], "all tables (any row labels, order, duplicates, missing values, extra columns), data ranges and omission lists",
  "Tests load four fixed files with one range each and look only at the smallest and largest Q; row labels, boundary ties, missing values and omission are never checked.",
  ["mc_data.py", "mc_data_1d.py"], [("clip", "mc_data_1d.py McData1D.clip"), ("omit", "mc_data_1d.py McData1D.omit"), ("prepare order", "mc_data.py McData.prepare")],
  ["McData1D(...).clippedData", "McData1D(...).rawData"])

p("C02", "Rebinning assigns every point to one log bin and averages it",
  "When rebinning to n bins, every clipped point contributes to exactly one of n logarithmically equal bins that span the smallest to the largest clipped Q, both end points included. Each non-empty bin gives exactly one output point, in order of increasing Q, whose Q and intensity are the plain means of its points; empty bins give none. With n = 0 the clipped data pass through unchanged.",
  ["inputs", "configurations"], "all clipped datasets (including a single point and repeated Q values), all bin counts",
  "Tests only check that no more than n points come out for two files; a lost, doubled or misplaced point, or a wrong mean, passes.",
  ["mc_data_1d.py", "mc_data.py"], [("reBin", "mc_data_1d.py McData1D.reBin"), ("bypass for nbins=0", "mc_data.py McData.prepare")],
  ["McData1D(...).binnedData", "McData1D(...).measData"])

p("C03", "Rebinned uncertainties are the largest of the available estimates",
  "The intensity uncertainty of a rebinned point is the largest of the standard error of the mean of its points, their propagated uncertainty sqrt(sum sigma^2)/N and the configured minimum fraction of its mean intensity; for a bin with one point it is the larger of that point's own uncertainty and that minimum. The Q uncertainty is likewise the largest of the standard error on Q, the propagated Q uncertainty when the data carry one (for a single point, its own), and 1% of Q. In bins of several points, the table also states the estimates themselves: sample standard deviation and standard error of the intensities and of Q, and the propagated uncertainties.",
  ["inputs", "configurations"], "all bin occupations, uncertainty magnitudes, minimum fractions, with and without a Q-uncertainty column",
  "No test looks at any uncertainty value.",
  ["mc_data_1d.py"], [("uncertainty combination", "mc_data_1d.py McData1D.reBin")],
  ["binnedData.ISigma", "binnedData.QSigma", "measData['ISigma']"])

p("C04", "The same data give the same fit input from every file format",
  "The same table of Q, I and uncertainty gives the same raw data and the same fit data for the same settings, whether passed as a table, read from delimited text with any matching read options, from a PDH file, or from a NeXus/HDF5 file through an explicit path dictionary or by following its default, signal and axes attributes (stored as text or bytes, the axes also as a list of texts; singleton dimensions allowed; uncertainties named by the group or by the signal's attribute). When a NeXus file names no uncertainties, 0.1% of the intensity is used. The format is chosen by the file suffix, or by the requested loader for unknown suffixes.",
  ["inputs", "configurations"], "all tables, all supported containers and the options/attribute spellings they allow",
  "Each format is loaded once from one fixed file and only checked to produce something.",
  ["mc_data.py", "mc_data_1d.py"], [("format dispatch", "mc_data.py McData.from_file"), ("NeXus reader", "mc_data.py McData.from_nexus"), ("text readers", "mc_data_1d.py from_csv, from_pdh, from_pandas")],
  ["McData1D(...).rawData", "McData1D(...).measData"])

p("C05", "2D fit data are exactly the valid pixels within the Q limits",
  "For any 2D image with Q components, mask and uncertainties, the fit data contain each unmasked pixel with non-infinite intensity and non-zero uncertainty whose |Q| and absolute Q components lie within the configured limits (lower <= value < upper) exactly once, with its own Q components, intensity and uncertainty, and no other pixel. Placing a per-point model intensity back into the image puts every value on its own pixel and leaves all others undefined. This holds wherever an all-zero third Q component sits in the file.",
  ["inputs", "configurations"], "all image shapes, masks, invalid pixels, Q limits, Q component layouts",
  "One file is loaded with default limits and only checked to be non-empty.",
  ["mc_data.py", "mc_data_2d.py"], [("Q component selection", "mc_data.py McData.from_nexus"), ("clip and mask", "mc_data_2d.py McData2D.clip"), ("reconstruct2D", "mc_data_2d.py")],
  ["McData2D(...).measData", "McData2D(...).reconstruct2D"])

p("C06", "Fit data mirror the chosen stage; re-preparing equals a fresh load",
  "The fit data have exactly the intensities and uncertainties of the chosen stage (raw, clipped or binned data) and its Q shifted by the configured Q offset exactly once, while the stages themselves are not shifted. After any sequence of setting changes, preparations and relinkings, preparing the data gives the same stages and fit data as loading the same table afresh with the final settings.",
  ["histories", "inputs", "configurations"], "all sequences of settings changes and prepare/relink calls on one data object",
  "Tests prepare each object once and never use the offset or another stage.",
  ["mc_data.py", "mc_data_1d.py"], [("linkMeasData", "mc_data_1d.py McData1D.linkMeasData"), ("prepare", "mc_data.py McData.prepare")],
  ["measData", "clippedData", "binnedData"])

p("C07", "Result-file values read back as stored; the last write wins",
  "Any supported value (number, boolean, text, path, array, list, timestamp, quantity with unit, table, or dictionary of these) stored under a key of a result file reads back equal with the matching reader. After any sequence of stores every key yields the value stored there last, whatever type, shape or dictionary content it held before (storing nothing leaves the key absent), and no other key changes. Reading an absent key gives the requested default.",
  ["histories", "inputs"], "all sequences of stores over a set of keys, all supported value types and shapes",
  "Tests store once into a new file and only check that loading does not crash.",
  ["mc_hdf.py"], [("storeKV/storeKVPairs", "mc_hdf.py"), ("loadKV/loadKVPairs", "mc_hdf.py")],
  ["loadKV", "loadKVPairs", "HDF5 file contents"])

p("C08", "A stored data state restores the same data and settings",
  "Restoring a stored 1D data state gives the same raw data, clipped and rebinned data and fit data, and the same settings (data range, omitted ranges, bin count, minimum uncertainty, Q offset, chosen stage, text-read options, source file), that were stored. Storing the restored state and restoring it again, any number of times, changes nothing, and storing a new state over an old one restores the new one.",
  ["histories", "inputs", "configurations"], "all datasets, sources and settings; chains of store/restore; overwriting stores",
  "Tests restore two default states and never compare anything.",
  ["mc_data.py", "mc_data_1d.py", "mc_hdf.py"], [("store/load", "mc_data.py McData.store, McData.load"), ("restore order", "mc_data_1d.py McData1D.__init__")],
  ["McData1D(loadFromFile=...)"])

p("C09", "Storing one result leaves everything else in the file untouched",
  "Storing data, optimizations or histograms under one result index changes nothing in the file outside that result: results under other indices, and content that was in the file before (such as the measured NeXus data when results are added to that same file), keep all their datasets, values and attributes. Results stored under different indices of one file can each be restored and analysed as if they were alone in it. Within a result, storing data, a single repetition or an analysis replaces just that part.",
  ["histories", "configurations"], "all interleavings of store operations under several result indices, in new files and in existing NeXus files",
  "One excluded integration test uses an index other than 1, alone in its file.",
  ["mc_hdf.py", "mc_data.py", "mc_model.py", "mc_opt.py", "mc_hat.py", "mc_analysis.py", "mc_model_histogrammer.py"], [("result root path", "mc_hdf.py ResultIndex.nxsEntryPoint")],
  ["HDF5 file contents"])

p("C10", "A stored repetition restores the optimization it came from",
  "Loading any repetition of any result restores exactly its contributions, parameter limits, fixed parameters, model name and data type, seed, volumes, optimization settings, counters and acceptance history, also for models with several fit parameters or without fixed parameters. Re-evaluating it on the same data reproduces the stored total intensity, scaling, background and goodness of fit, and the optimization can be continued from it with contributions within limits and a consistent acceptance history. The settings of the run (numbers of repetitions and cores) are restored too, and settings given with the file replace the restored ones.",
  ["inputs", "configurations", "histories"], "all models and parameter sets, repetition numbers, result indices; continuation after restore",
  "The Monte Carlo part is not exercised by any test in scope; the comparison intended in the constructor is dead code.",
  ["mc_core.py", "mc_model.py", "mc_opt.py", "mc_hdf.py"], [("McCore.store/load", "mc_core.py"), ("McModel.store/load", "mc_model.py"), ("McOpt.store/load", "mc_opt.py")],
  ["McCore(loadFromFile=..., loadFromRepetition=...)", "HDF5 file contents"])

p("C11", "Scaling and background are the best fit within their bounds",
  "For any data, uncertainties and model intensity, the returned scaling and background respect the bounds (by default scaling >= 0 and |background| <= mean intensity, or the bounds the caller gives), the reported goodness of fit is the mean squared uncertainty-weighted residual for exactly these values, and no other allowed pair gives a better one. The result does not depend on the starting guess, and follows a change of intensity units or of the model's normalisation.",
  ["inputs", "configurations"], "all data/uncertainty/model arrays including orders-of-magnitude scale differences, optima at a bound, degenerate models",
  "No test in scope calls it; integration tests only see whether a fit converges.",
  ["osb.py"], [("match", "osb.py optimizeScalingAndBackground.match"), ("bounds", "osb.py optimizeScalingAndBackground.__init__")],
  ["optimizeScalingAndBackground.match"])

p("C12", "Total model intensity and volumes always match the contributions",
  "After any number of Monte Carlo steps, accepted or rejected, the total model intensity equals the sum of the intensities of the current contributions (up to rounding), the recorded volume of every contribution is the volume of its current parameters, and the recorded goodness of fit, scaling and background are those of that total intensity against the data.",
  ["histories", "inputs", "configurations"], "all step sequences, models, contribution counts, seeds and datasets",
  "The Monte Carlo core is not exercised by any test in scope; integration tests only see the end result of a converged fit.",
  ["mc_core.py", "mc_model.py"], [("incremental update", "mc_core.py McCore.reEvaluate, accept"), ("initial sum", "mc_core.py McCore.initModelI")],
  ["core._opt.modelI", "core._model.parameterSet", "core._model.volumes", "core._opt.gof"])

p("C13", "A step replaces one contribution only if the fit strictly improves",
  "Each Monte Carlo step proposes a replacement for exactly one contribution, taken in cyclic order, and accepts it if and only if the best-fit goodness of fit becomes strictly smaller; a rejected step changes nothing but the step counter. The goodness of fit therefore never increases, and the acceptance history lists, after the starting value, the step number and the goodness of fit reached for every accepted step.",
  ["histories", "inputs", "configurations"], "all step sequences, models, contribution counts, seeds and datasets",
  "The Monte Carlo core is not exercised by any test in scope.",
  ["mc_core.py"], [("iterate/accept/reject", "mc_core.py McCore"), ("contribIndex", "mc_core.py McCore.contribIndex")],
  ["core.iterate()", "core._opt.acceptedSteps", "core._opt.acceptedGofs"])

p("C14", "Optimization stops at the first criterion reached and not before",
  "An optimization runs until the goodness of fit is at or below the convergence criterion, the number of steps reaches the maximum, or the number of accepted steps reaches its maximum, whichever comes first: it never takes a step once one of these holds and never stops while none holds. In particular it takes no step when the starting set already satisfies one, and the step and acceptance counters equal the steps taken and accepted.",
  ["configurations", "histories", "inputs"], "all combinations of convergence criterion, step limit, acceptance limit, data and seeds",
  "Integration tests (not run) use one limit combination and never compare counters.",
  ["mc_core.py", "mc_opt.py"], [("loop condition", "mc_core.py McCore.optimize")],
  ["core._opt.step", "core._opt.accepted", "core._opt.gof"])

p("C15", "Contributions stay within their limits; auto limits follow the Q range",
  "Every contribution ever drawn (initial or proposed) and every stored contribution lies within the limits of each fit parameter, drawn uniformly over them or, in logarithmic mode, uniformly in the logarithm, and there are exactly the configured number of contributions. A fit parameter limit 'auto' becomes [pi/Qmax, pi/Qmin] of the data of that run, other limits are used as given, and automatic limits for data with a non-positive Q or an unknown keyword are rejected.",
  ["inputs", "configurations", "histories"], "all limits, parameter combinations, seeds, linear/log mode, datasets",
  "No test in scope creates a model; integration tests do not look at individual contributions.",
  ["mc_model.py", "mc_hat.py"], [("random picks", "mc_model.py McModel.generateRandomParameterValues, log_transform_generator"), ("auto limits", "mc_hat.py McHat.fillFitParameterLimits")],
  ["model.parameterSet", "model.pickParameters", "stored fitParameterLimits and parameterSet"])

p("C16", "Repetitions are independent, and reproducible with a fixed seed",
  "The repetitions of one run draw different random sequences, with and without a given seed, on one core or several. Repeating a run with the same seed, data and settings reproduces every repetition exactly; a different seed, or no seed, gives different contributions.",
  ["configurations", "histories", "schedules"], "all seeds (also none), repetition counts, core counts",
  "All integration tests pass seed=None and do not compare repetitions.",
  ["mc_hat.py", "mc_model.py"], [("seeding per repetition", "mc_hat.py McHat.runOnce"), ("generator", "mc_model.py McModel.__init__")],
  ["stored parameterSet of each repetition"])

p("C17", "Contribution intensities are the volume-weighted form factors",
  "The intensity of one contribution is its squared form-factor amplitude divided by its volume: for the built-in sphere model the analytic sphere form factor with contrast (sld - sld_solvent) and volume 4/3 pi r^3, equal to the library sphere model for the same parameters, and for library models (including 2D and form times structure factor models) the library's own intensity at unit scale and zero background. Configured scale and background parameters of form-factor models do not change it.",
  ["inputs", "configurations"], "all radii, contrasts, Q values and supported models",
  "No test in scope evaluates a model; a constant or shape error is absorbed by scaling in a fit.",
  ["mc_model.py"], [("calcModelIV", "mc_model.py McModel.calcModelIV"), ("built-in sphere", "mc_model.py mcsasSphereModel.kernelfunc")],
  ["model.calcModelIV"])

p("C18", "The simulated-data model scales and extends the simulation correctly",
  "For the simulation model with size factor R, the contribution volume is R^3 and its intensity R^3 times the simulated intensity at Q*R: linearly interpolated within the simulated Q range, equal to the first simulated value below it, and equal to extrapY0 + extrapScaling*(Q*R)^-4 above it. Evaluations do not alter the simulation data, and do not depend on earlier evaluations.",
  ["inputs", "configurations", "histories"], "all simulated curves, Q vectors, size factors, extrapolation parameters",
  "No test in scope uses the simulation model.",
  ["mc_model.py"], [("McSimPseudoModel.interpscale", "mc_model.py")],
  ["model.calcModelIV"])

p("C19", "A run stores every repetition completely, on any number of cores",
  "A run with n repetitions on any number of cores (including automatic choice, and more cores or repetitions than the other) finishes and leaves exactly repetitions 0..n-1 in the result, each complete and self-consistent (its stored contributions give its stored intensity, scaling, background and goodness of fit), whether or not the fit converged. The processes of a run that store at the same time never lose or mix up each other's results.",
  ["schedules", "configurations", "inputs"], "all repetition/core count combinations and worker finishing orders",
  "Not exercised by tests in scope; integration tests use 4 repetitions and only check that analysis completes.",
  ["mc_hat.py", "mc_core.py", "mc_hdf.py"], [("worker pool and store lock", "mc_hat.py McHat.run, runOnce, initStoreLock")],
  ["HDF5 file contents after McHat.run"])

p("C20", "Histograms count each in-range contribution once, scaled",
  "For every histogram range the bin edges are n+1 values evenly spaced linearly or logarithmically from the range minimum to its maximum, taken from the parameter's fit limits when automatic and from the preset values otherwise. Every contribution within the range is counted in the one bin that contains it and none outside, each adding the fitted scaling times the constant 1e-5, so that the bins sum to the range's total value. Invalid range definitions (unknown parameter, scale, weighting, or bin count) are rejected.",
  ["inputs", "configurations"], "all contribution sets, scalings, range definitions and several ranges at once",
  "No test in scope histograms anything.",
  ["mc_model_histogrammer.py"], [("genX", "mc_model_histogrammer.py"), ("histogram", "mc_model_histogrammer.py"), ("range selection", "mc_model_histogrammer.py __init__")],
  ["McModelHistogrammer results", "stored histograms"])

p("C21", "Population statistics are the moments of the in-range contributions",
  "For every histogram range, total value, mean, variance, skew and kurtosis are those of exactly the contributions with range minimum <= value <= range maximum: count times scaling times 1e-5, arithmetic mean, population variance, and third and fourth standardised central moments. They do not depend on binning, and a range without contributions has total value zero and undefined other moments.",
  ["inputs", "configurations"], "all contribution sets, scalings and ranges, including empty and single-valued ones",
  "Only one excluded integration test looks at two means within wide tolerances.",
  ["mc_model_histogrammer.py"], [("modes", "mc_model_histogrammer.py McModelHistogrammer.modes")],
  ["McModelHistogrammer results", "stored modes"])

p("C22", "Analysis averages exactly the repetitions present in the file",
  "For any set of repetition numbers present in a result (not necessarily contiguous or starting at zero), the averaged histograms, population statistics, optimization parameters and model intensity are the mean and standard deviation (sample standard deviation; population form for the model intensity) over exactly these repetitions, each with its own scaling and background. Averaged bins sum to the averaged total value, and the result does not depend on the order in which repetitions were stored.",
  ["inputs", "configurations", "histories"], "all repetition sets, contribution sets and range lists",
  "No test in scope analyses anything; integration tests always have repetitions 0..n-1.",
  ["mc_analysis.py", "mc_model_histogrammer.py"], [("getNRep", "mc_analysis.py"), ("histAndLoadReps", "mc_analysis.py"), ("average*", "mc_analysis.py")],
  ["McAnalysis averaged results"])

p("C23", "Results can be re-histogrammed any number of times, last one stored",
  "Analysing a result never alters the stored data, contributions or optimization results, so that after any sequence of analyses with any range definitions a further analysis gives the same outcome as on an untouched copy of the file. After each stored analysis, every one of its ranges has in the file exactly the settings, per-repetition histograms and statistics, averages, and averaged optimization parameters and model intensity of that analysis.",
  ["histories", "configurations"], "all sequences of stored and unstored analyses with changing range lists on one file",
  "Integration tests re-histogram once with other bin counts and never read the file back.",
  ["mc_analysis.py", "mc_model_histogrammer.py", "mc_hdf.py"], [("store", "mc_analysis.py McAnalysis.store; mc_model_histogrammer.py store"), ("overwrite", "mc_hdf.py storeKV")],
  ["HDF5 file contents", "McAnalysis averaged results"])

p("C24", "Command-line runs do what the configuration files say",
  "For any valid data file and read, run and histogram configuration files, the optimizer and histogrammer command lines, run one after the other or as the combined command, leave in the requested result index the data state, settings and all configured repetitions (with the thread option overriding the configured core count) and the histograms that the same configuration gives through the library, plus a result plot beside the result file. Without the delete option other results already in the file stay; with it only the new result remains.",
  ["configurations", "inputs", "histories"], "all configuration combinations, formats, result indices, delete/thread options, existing files",
  "No test calls a command line tool.",
  ["__main__.py", "cli_tools.py", "mcsas3_cli_runner.py", "mcsas3_cli_histogrammer.py"], [("McSAS3_cli_optimize.run", "cli_tools.py"), ("McSAS3_cli_histogram.run", "cli_tools.py"), ("argument split", "__main__.py")],
  ["exit status", "result file contents", "plot file"])

p("C25", "Command-line runs never delete or damage the input data file",
  "Whatever way the result file path is spelled (the data file's own path, a relative path through other directories, a symbolic or hard link) and with or without the delete option, an optimizer command-line run leaves the input data file in place with all measured content unchanged; if results go into the data file itself they are only added to it. A run that fails because of invalid configuration, or that is broken off by an interrupt or an error of the system, leaves the data file intact too.",
  ["configurations", "fault_sequences", "inputs"], "all path spellings/links of data and result file, delete option, formats, failing configurations",
  "No test calls a command line tool or uses the delete option.",
  ["cli_tools.py"], [("delete guard", "cli_tools.py McSAS3_cli_optimize.run")],
  ["file system", "HDF5 file contents"])

p("C26", "Reports and plots show the analysed numbers",
  "The text report of every histogram range states that range's limits and, for each population statistic, the averaged mean, standard deviation and their ratio in percent (omitted when the mean is zero); the run report states the number of repetitions, the Q range and the same for every optimization parameter. The result card shows for each range, in the order of the range table and whatever its row labels, bars with the averaged heights at the bin positions and widths and the standard deviations as error bars; the data with their uncertainties together with the averaged model intensity; and these reports. The plots of single histograms (averaged, or of one repetition) show the same bars.",
  ["inputs", "configurations"], "all analyses: numbers of ranges and repetitions, values of any magnitude, zero means",
  "No test in scope produces a report or a plot.",
  ["mc_analysis.py", "mc_plot.py"], [("debugReport/debugRunReport", "mc_analysis.py"), ("resultCard", "mc_plot.py")],
  ["debugReport", "debugRunReport", "McPlot.resultCard figure"])

p("C27", "Objects do not influence each other or the caller's configuration",
  "Loading, optimizing or analysing with one object never changes the outcome of another object with its own arguments, in any order of creation and use within a process. The configuration dictionaries, limit lists and data arrays passed in by the caller are left unmodified, and range tables and optimizers can be shared and used again, so that one configuration (including automatic limits) can be reused for further datasets with the same outcome as in a fresh process.",
  ["histories", "configurations"], "all sequences of creating and using data, model, optimizer and analysis objects with differing arguments",
  "Tests never compare results obtained in different orders; each uses fresh literal configurations.",
  ["mc_data.py", "mc_data_1d.py", "mc_model.py", "mc_opt.py", "mc_core.py", "mc_hat.py", "mc_model_histogrammer.py", "mc_analysis.py"], [("resets in constructors", "all classes"), ("limit filling", "mc_hat.py McHat.fillFitParameterLimits"), ("model defaults", "mc_model.py sphereParameters, simParameters; mc_core.py __init__")],
  ["results of each object", "caller's arguments"])

p("C28", "A change of units only rescales the result",
  "With the same seed, multiplying intensities and uncertainties by a factor leaves contributions, acceptance history and goodness of fit the same and multiplies scaling, background and histogram heights by it. Multiplying Q by a factor and dividing size limits by it leaves acceptance history, goodness of fit and background the same and divides all contribution sizes by it; automatic size limits follow by themselves.",
  ["inputs", "configurations"], "all datasets, configurations and unit factors (powers of two, where rounding is exact)",
  "Metamorphic relation between two complete runs; no test compares runs.",
  ["mc_data_1d.py", "osb.py", "mc_core.py", "mc_model.py", "mc_hat.py", "mc_model_histogrammer.py"], [("whole pipeline", "McData1D -> McHat -> McCore -> McAnalysis")],
  ["stored results", "McAnalysis averaged results"])

p("C29", "Settings that are unknown, missing or unusable are refused",
  "A data object, optimizer, model, run or analysis that is given an unknown or misspelled setting, an unknown fixed or fitted parameter (fixed: all but the simulation model), an unknown model, precision or stage of the data, limits that are no pair (or neither pair nor 'auto'), non-positive limits for logarithmic picks, a non-positive number of repetitions, a Q range or image range without points, an omitted range that is no pair, a data file that is absent, of unknown type, without the named datasets or attributes or not in the described text format, a data table or range table that lacks a column, or a result (index) that does not exist or has no repetitions raises an error instead of silently using something else, and leaves the result file, or its absence, as it was. The same operation without the mistake is accepted.",
  ["configurations", "inputs"], "all valid configurations with one change that makes them invalid, for every kind of object",
  "Tests use valid configurations; a setting that is silently ignored makes a run look as if it had been used.",
  ["mc_data.py", "mc_data_1d.py", "mc_data_2d.py", "mc_opt.py", "mc_model.py", "mc_hat.py", "mc_analysis.py", "mc_hdf.py"], [("settings", "processKwargs, storeKeys/settables assertions"), ("file loading", "mc_data.py from_file")],
  ["raised errors", "result file"])

p("C30", "An operation that is broken off harms nothing else and can be repeated",
  "When storing a data state, settings, a repetition or an analysis, or a run, is broken off at any point by an interrupt, an error of the system or the end of the process (between two accesses of the file), then everything in the file that the operation does not itself replace (other results, other parts of this result, measured and foreign content) is as before, the repetitions the run had completed are stored completely, and repeating the operation gives exactly the file it would have given without the interruption.",
  ["crash_points", "histories"], "all operations, points of interruption and earlier contents of the file",
  "Tests never interrupt anything.",
  ["mc_hdf.py", "mc_hat.py", "mc_core.py", "mc_model.py", "mc_opt.py", "mc_analysis.py", "mc_model_histogrammer.py", "mc_data.py"], [("storage", "mc_hdf.py storeKV/storeKVPairs"), ("order of storing", "McHat.runOnce, McAnalysis.store")],
  ["result file after the interruption", "result file after the repetition"])

p("C31", "Known populations of spheres are recovered from measurements of them",
  "From simulated absolute measurements of dilute spheres (of one size, or in one or two size distributions of moderate width) of known radius, volume fraction, contrast and constant background with a few percent noise, given in any supported form and with whatever settings are needed to undo a Q offset and to leave out or combine points, fits with enough iterations reach a goodness of fit of the order of that of the true curve, and what such fits state as volume-weighted mean size, width, volume fraction of each population and background agrees with the truth within the accuracy such data allow.",
  ["inputs", "configurations"], "all populations of spheres (sizes, amounts, contrasts), noise realizations, forms of input, data preparation settings and seeds",
  "The one test that runs a fit end to end only checks that it finishes; whether the result is right in absolute terms depends on every part at once.",
  ["mc_data.py", "mc_data_1d.py", "mc_model.py", "osb.py", "mc_core.py", "mc_opt.py", "mc_hat.py", "mc_model_histogrammer.py", "mc_analysis.py"], [("whole pipeline", "McData1D -> McHat -> McCore -> McAnalysis")],
  ["McAnalysis averaged statistics", "averaged optimization parameters"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
