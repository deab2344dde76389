"""Writes properties.jsonl (kept as Python for readability of long strings)."""
import json, os
O = "otpod/"
ALL = [O+"_univariate_linear_model_analysis.py", O+"_univariate_linear_model_pod.py", O+"_quantile_regression_pod.py",
       O+"_polynomial_chaos_pod.py", O+"_kriging_pod.py", O+"_kriging_tools.py", O+"_adaptive_signal_pod.py",
       O+"_adaptive_hitmiss_pod.py", O+"_sobol_indices.py", O+"_pli_pod.py", O+"_pli.py", O+"_pod_summary.py", O+"_pod.py"]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   observe_at=list(observe), hook_needed=None)))

prop("C01", "A study is reproducible from its data, settings and generator states",
 "A study (linear analysis, linear/quantile regression/chaos/kriging/adaptive POD, Sobol or PLI sensitivity, summary) built from the same data and settings and run from the same OpenTURNS and NumPy generator states gives the same results and leaves the generators in the same states, whatever the process did before (other studies, failed runs, queries, drawings), the wall clock and its jumps, the hash seed, and the verbosity. Nothing a study does resets or reseeds these generators: from different generator states the generators never end in one common state.",
 ["histories", "inputs", "configurations"],
 "every kind of study, data set, settings, generator states; every earlier history of the process; every clock and hash seed",
 "The tests pin a few golden values in a fresh process with seed 0; they never run the same study after another history, with another clock, hash seed or verbosity, and never look at the generators afterwards.",
 ALL, [("all randomness is drawn from ot.RandomGenerator (and numpy.random in the classifier/censored paths); no module-level state", "otpod/*.py: getSample/getRealization/generate calls"),
       ("low discrepancy sequences and random forests with a fixed random state for the parts meant to be deterministic", "otpod/_kriging_tools.py:_estimKrigingTheta, otpod/_adaptive_hitmiss_pod.py")],
 [("ot.RandomGenerator / numpy.random state", "process-wide generator states", "used by every run()")], ["all public getters after run()", "generator states"])

prop("C02", "Asking for results never changes any answer",
 "After a run, queries (POD curves, curves at any confidence level, detection sizes, quality figures, designs, test results, indices, text reports, drawings, saved files) can be asked in any order, any number of times, from one or several threads, including queries that fail or are interrupted, and each answers exactly what it would have answered had it been asked first and alone. Queries consume no random numbers, and curves obtained earlier keep giving the same values.",
 ["histories", "schedules", "fault_sequences"],
 "every kind of study; every sequence and interleaving of queries; every failing or interrupted query in between",
 "Each test asks one query once, on an object nobody else used; no test asks again after a failure, after a drawing or from another thread.",
 ALL, [("results are computed once by run() and only read by the accessors", "getPODModel/getPODCLModel/computeDetectionSize/draw* in each class"),
       ("curves at a confidence level are rebuilt from stored simulations", "getPODCLModel")],
 [("stored simulations", "POD values per simulation and defect, bootstrap models", "_PODPerDefect, _PODcollDict, _defectsPerQuantile")],
 ["every public getter, computeDetectionSize, draw*, getResults, saveResults"])

prop("C03", "An interrupted run leaves the old results, the complete new ones, or none",
 "When a run is cut short (the user's interrupt, memory exhaustion, a failing output stream or a failing computation) the study afterwards still reports exactly its previous results, or exactly those of the complete new run, or refuses to answer; it never reports a curve, confidence curve, index or report made of half-computed values, nor a POD curve and a confidence curve of two different runs (the methods of a summary each on their own; the design and metamodel of an adaptive study follow the points already acquired, and one that draws its progress may report those of a completed iteration). Running a non-adaptive study again from the same generator states then gives exactly what the uninterrupted run gives.",
 ["crash_points", "fault_sequences", "histories"],
 "every kind of study with or without earlier results; every point at which a long operation of the run may fail or be interrupted; every kind of failure",
 "No test interrupts a run; the failure points are thousands per run and only the state left behind matters.",
 [f for f in ALL if "analysis" not in f], [("results are assembled locally and stored together at the end of run()", "KrigingBase._setPODResults, PolynomialChaosPOD.run, QuantileRegressionPOD.run, UnivariateLinearModelPOD.run, PLIBase.run, SobolIndices.run")],
 [("results of the last run", "POD model and the simulations behind the confidence curves", "_PODmodel, _PODPerDefect, _PODcollDict, _defectsPerQuantile, _indices, _sa")],
 ["public getters after a failed run()", "public getters after the repeated run()"])

prop("C04", "A rejected setting changes nothing; an accepted one acts at the next run",
 "A setter that rejects its argument (defect sizes, quantiles, distributions, bases, covariance models, probabilities, flags, method names, classifier names) leaves every setting, every reported result and the next run exactly as if it had not been called. An accepted setting is what its getter returns, changes no POD result, sensitivity index or drawing already computed, and fully governs the next run: a non-adaptive study set, run, and set again then runs exactly like a new study with the final settings.",
 ["histories", "inputs", "configurations"],
 "every kind of study; every sequence of accepted and rejected settings before and after runs",
 "Tests set each parameter once, before the only run, with valid values; a few check that an exception is raised, none looks at the study afterwards.",
 ALL, [("setters validate before storing", "set* methods"), ("results keep the grid, quantiles and simulations they were computed with", "_PODdefectSizes, _PODquantile, _PODcollDict, _pliDefectSizes, _saDefectSizes")],
 [], ["set*/get* pairs", "public getters between runs", "results of the next run"])

prop("C05", "The enriched design is the initial design plus what the model really answered",
 "During and after adaptive enrichment, whatever physical-model calls failed or runs were interrupted, the reported input and output designs have the same size, begin with the initial (censoring-filtered) design unchanged and in order, and every added pair is a point that was given to the physical model together with what the model returned for it. A run that completes has added exactly the requested number of points, all inside the range of the input distribution; for the signal POD these points are distinct, the model was called exactly once for each, and the reported metamodel is built on exactly the reported design (standardised, its outputs Box-Cox transformed).",
 ["fault_sequences", "crash_points", "histories", "schedules"],
 "every initial design, physical model (also noisy, slow or failing), number of points, candidate set, classifier, Box-Cox and censoring option; every failing call and interruption point; every number of runs",
 "The tests run one deterministic model that never fails and compare final curves with golden values; no test looks at the designs, let alone after a failure.",
 [O+"_adaptive_signal_pod.py", O+"_adaptive_hitmiss_pod.py", O+"_pod.py", O+"_math_tools.py"],
 [("the new point and its signal are stored together, after the model answered", "AdaptiveSignalPOD._runEnrichment, AdaptiveHitMissPOD._runEnrichment"), ("the number of added points is cut to the requested one", "AdaptiveHitMissPOD._runEnrichment"), ("inverse Box-Cox in getOutputDOE", "AdaptiveSignalPOD.getOutputDOE")],
 [("design of experiments", "input points and their signals", "_input, _signals")], ["getInputDOE", "getOutputDOE", "calls of the physical model"])

prop("C06", "Adaptive enrichment finishes and resumes once the model works again",
 "With a working physical model an adaptive POD run always completes in a bounded number of steps for every candidate set larger than the number of points asked, every selection band, poor or good metamodel and graph option, and afterwards every report (curves, confidence curves, designs, quality figures, drawings, sensitivity analyses built on it) is available. After any finite sequence of failed or interrupted runs, the first run started with a working model completes too.",
 ["fault_sequences", "configurations", "histories"],
 "every adaptive study and configuration as in C05; every finite sequence of failures followed by recovery",
 "The tests run only configurations whose golden values were recorded, with a model that never fails; the fallback branches (no candidate in the band, low Q2, existing or missing graph directory) are never taken.",
 [O+"_adaptive_signal_pod.py", O+"_adaptive_hitmiss_pod.py", O+"_kriging_tools.py", O+"_pli_pod.py", O+"_sobol_indices.py"],
 [("one point per iteration / at least one point per iteration, loop bounded by the requested number", "_runEnrichment"), ("fallback selection when no candidate is in the band", "AdaptiveHitMissPOD._runEnrichment"), ("re-optimization of the covariance model when Q2 is low", "AdaptiveSignalPOD._runEnrichment")],
 [], ["return of run()", "every public getter and drawing afterwards"])

prop("C07", "Saving writes the complete file or raises",
 "When a result file or drawing is asked for (saveResults, every draw method given a file name, the graph directory of the adaptive studies), the call either returns with the complete file on disk at the given place, or raises; a full disk, an I/O error at open, write or close, a file size limit or a missing directory is never passed over in silence (the summary's drawing of all graphs may report it as a logged warning). The same call repeated once the disk works writes exactly the file a faultless first call writes, whatever was there before.",
 ["fault_sequences", "crash_points", "inputs"],
 "every kind of study and file-producing method; every disk fault at every operation and byte position; every earlier content of the file",
 "Tests save to a working disk once and at most test that a file exists.",
 [O+"_univariate_linear_model_analysis.py", O+"_pod_summary.py", O+"_pod.py", O+"_univariate_linear_model_pod.py", O+"_quantile_regression_pod.py", O+"_polynomial_chaos_pod.py", O+"_kriging_tools.py", O+"_sobol_indices.py", O+"_pli.py", O+"_pli_pod.py", O+"_adaptive_signal_pod.py", O+"_adaptive_hitmiss_pod.py"],
 [("files are written in a with block, errors propagate", "saveResults"), ("figures are saved at the end of each draw method", "draw*: fig.savefig"), ("missing graph directory is created", "_runEnrichment")],
 [], ["files on disk", "return or exception of the saving call"])

prop("C08", "Process-wide state is left as found",
 "Building, running (also failing or interrupted), querying, drawing and saving leave the process-wide state that belongs to the user as it was: matplotlib's interactive mode, settings and backend, working directory, environment, standard streams, signal handlers, NumPy error handling and print options, warning filters, logging level and handlers, OpenTURNS resource map and log, Python's own random generator, threads, open files. No file appears except those asked for, and with verbosity off a run prints nothing.",
 ["histories", "fault_sequences", "configurations"],
 "every kind of study and operation, with success, failure or interruption at every point, from every initial setting of that state",
 "Every test starts from the default state in a fresh process and never looks at it.",
 ALL + [O+"_progress_bar.py"], [("interactive plotting mode is put back in a finally block", "AdaptiveSignalPOD.run, AdaptiveHitMissPOD.run"), ("prints are guarded by the verbosity flag", "run methods")],
 [], ["plt.isinteractive, rcParams, os.getcwd, os.environ, ..."])

prop("C09", "The caller's data and objects are never modified, nor watched",
 "Data, thresholds, defect sizes, quantiles, deltas, distributions, bases, covariance models, strategies and metamodel results handed to a study keep their contents, whatever containers they come in and whether the study succeeds, fails or is interrupted. Conversely a study keeps its own copy of the data, sizes, quantiles and deltas: when the caller later changes his arrays or samples, nothing the study reports or computes changes.",
 ["inputs", "histories", "fault_sequences"],
 "every kind of study, container and memory layout of the arguments; every operation, failure or interruption; every later change by the caller",
 "Tests build the arguments for one use and never compare them afterwards or change them.",
 ALL, [("samples are copied at construction", "POD.__init__, UnivariateLinearModelAnalysis.__init__, PODSummary.__init__"), ("sizes are sorted in a copy", "setDefectSizes, setQuantile"), ("designs are enriched in new samples", "_runEnrichment")],
 [], ["the caller's objects", "public getters after the caller changed his arrays"])

prop("C10", "What the data alone determine does not depend on the random stream",
 "The Box-Cox parameter, the regression estimates, their quality figures and residual tests other than the simulated Harrison-McCabe one, the mean POD and detection size (without confidence level) of the linear and quantile regression methods, the kriging and chaos metamodels with their quality figures, and the default classifier are the same for every state of the random generators and every number of simulations.",
 ["inputs", "configurations", "histories"],
 "every data set, censoring and Box-Cox option; every generator state; every simulation and sampling size",
 "Tests run with one seed and one simulation size; a value that moves with the random stream looks constant.",
 [O+"_univariate_linear_model_analysis.py", O+"_univariate_linear_model_pod.py", O+"_quantile_regression_pod.py", O+"_polynomial_chaos_pod.py", O+"_kriging_pod.py", O+"_kriging_tools.py", O+"_adaptive_hitmiss_pod.py", O+"_pod.py", O+"_math_tools.py"],
 [("bootstrap only feeds the confidence curves", "_PODbootstrapModelCl, QuantileRegressionPOD.run"), ("multi-start from a low discrepancy sequence", "KrigingBase._estimKrigingTheta"), ("classifier with a fixed random state", "AdaptiveHitMissPOD")],
 [], ["getBoxCoxParameter, getR2, getQ2, getPODModel, computeDetectionSize(p), metamodels"])

prop("C11", "Simulated curves track the model they simulate, for every random stream",
 "For every random stream, the POD curve lies in [0, 1] (that of kriging up to Monte Carlo error) and agrees within Monte Carlo error with the probability, under the reported metamodel, residual spread and input distribution, that the signal at that defect size exceeds the detection threshold; the curve at a confidence level is the matching quantile of the POD under the method's own uncertainty model (bootstrap, Gaussian coefficients, kriging), so it never rises when the confidence level rises (for quantile regression, where the sizes of its quantiles are positive and in order). Drawings show these curves. A reported detection size is a defect size at which the corresponding reported curve takes the requested probability (without confidence level, that of quantile regression is where the regression line of that quantile meets the threshold), labelled with the percentages asked for, and a probability the curve does not reach on the studied interval is refused.",
 ["inputs", "configurations", "histories"],
 "every data set, detection threshold, method, confidence level and probability; every random stream",
 "The tests compare a few recorded values of one stream to one or two digits; they cannot tell a right curve from a wrong one, only a changed one.",
 [O+"_univariate_linear_model_pod.py", O+"_quantile_regression_pod.py", O+"_polynomial_chaos_pod.py", O+"_kriging_pod.py", O+"_kriging_tools.py", O+"_adaptive_hitmiss_pod.py", O+"_pod.py"],
 [("Monte Carlo over the input distribution with the defect size fixed", "_computePOD, _computePODSamplePerDefect"), ("quantiles of the simulated PODs", "getPODCLModel"), ("root finding with a bracket check", "POD._computeDetectionSize, QuantileRegressionPOD.computeDetectionSize")],
 [], ["getPODModel, getPODCLModel, computeDetectionSize"])

prop("C12", "The summary reports each method faithfully",
 "The POD summary runs exactly the active methods with the summary's data and settings; each method's accessible study has the data-determined results of a stand-alone study with the same data, inactive methods are refused and cost no simulation. The text report, the saved file and the graphs contain, for every active method and no other, the quality figures and detection sizes that study itself gives (rounded, under the percentages asked for), a method whose detection size cannot be computed being marked -1 with a logged warning and leaving the rows of the other methods unchanged.",
 ["inputs", "configurations", "fault_sequences", "histories"],
 "every data set, dimension, censoring and Box-Cox option; every subset of active methods; every subset of failing methods; every level asked",
 "There is no test of the summary in the suite besides a notebook; combinations of active and failing methods are never exercised.",
 [O+"_pod_summary.py"], [("one sub-study per active method, built and run in run()", "PODSummary.run"), ("per-method try/except with -1 and a warning", "PODSummary._buildPrintResults, drawGraphs")],
 [("active methods", "which methods run and are reported", "_activeMethods")], ["getResults, saveResults, drawGraphs, get*POD"])

prop("C13", "Studies do not influence each other",
 "Several studies of any kinds used in the same process, in turn or in concurrent threads, sharing data, distributions, covariance models, bases, physical models or one another (a sensitivity analysis and the POD it is built on), each give exactly the results they give alone with the same random numbers: no run, setting, query, drawing or failure of one study changes the reported results, figures or designs of another.",
 ["schedules", "histories", "fault_sequences"],
 "every set of studies and shared objects; every interleaving of their operations, down to the individual calls made inside run() and the queries; every failure of one of them",
 "Each test creates one study and uses it alone, in one thread.",
 ALL, [("no mutable class or module state; figures are drawn through their own axes", "all classes"), ("sensitivity studies read the POD they are built on without changing it", "SobolIndices, PLIBase")],
 [], ["public getters of every study", "contents of the returned figures"])

prop("C14", "Sensitivity results belong to the defect sizes, inputs and deltas reported",
 "After a sensitivity run there is one result per reported defect size, input variable and delta, in the reported order: the indices, confidence intervals, perturbed probabilities and drawings given for a defect size are those of the POD at that size under the metamodel of the POD study, whichever other sizes are studied along with it (exactly so when the method draws no fresh random numbers per size, within Monte Carlo error otherwise). Sizes for which indices cannot be estimated are left out of the reported sizes or refused (Sobol) or marked as not computed and refused (PLI), with a logged warning, and never shift or zero the results of the others.",
 ["inputs", "configurations", "histories"],
 "every kriging, chaos or adaptive POD, defect grid, subset of degenerate sizes, estimator, delta table and random stream",
 "Sobol tests pin golden values on one non-degenerate grid; the PLI classes have no test.",
 [O+"_sobol_indices.py", O+"_pli_pod.py", O+"_pli.py"], [("outputs with null variance are dropped together with their sizes", "SobolIndices.run"), ("not computed sizes are NaN and refused", "PLIBase.run, getPLIObject, drawIndices")],
 [], ["getSensitivityResult, getIndices, getPLIObject, getDefectSizes, draw*"])

prop("C15", "Closed-form regression and test formulas are exact",
 "Ordinary least squares estimates, R2, Breusch-Pagan, Durbin-Watson, zero-mean and normality p-values and the censored maximum likelihood estimate equal their mathematical definitions on the filtered, transformed data.",
 ["inputs"], "every data set", "Tests check a few golden values.",
 [O+"_univariate_linear_model_analysis.py", O+"_math_tools.py"], [("closed formulas", "otpod/_math_tools.py")])
prop("C16", "Perturbed densities meet their moment constraint",
 "Each perturbed marginal density used by the PLI indices integrates to one, has the requested mean (or variance) and minimises the Kullback-Leibler divergence to the original one.",
 ["inputs"], "every Normal or Uniform marginal and delta", "There are no PLI tests.",
 [O+"_pli.py"], [("exponential tilting", "PLIMeanBase/PLIVarianceBase._perturbedMarginalPDF")])

prop("C17", "Thresholds, given parameters and reported settings mean what they say",
 "The same study told in two ways gives the same results. The observations at or below the noise threshold and at or above the saturation threshold take no part in a polynomial chaos, kriging or adaptive study, in the quantile regression curve, in the sensitivity indices built on them and in the uncensored half of a linear analysis: dropping them beforehand changes nothing, whatever the random numbers, and in an adaptive study the physical model is asked the same points, also when it fails. A linear POD built on an analysis is the one built on its data, thresholds, residual distribution and Box-Cox setting. A Box-Cox parameter given as a number is the one used and reported: giving the estimated number gives the results of the estimation, and the number 1, which only translates the signals, gives the curves of the linear and quantile regression methods on untransformed signals. The defect sizes, distribution, basis, degree and levels which a run reports, given to a new study, reproduce the run. The order of the observations and the units of signals and defects do not change a linear POD.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "every data set, pair of thresholds, Box-Cox setting and configuration; every random stream; every sequence of failures of the physical model",
 "Tests fix one data set per feature and compare golden values of each way of telling separately, never with each other; a Box-Cox parameter given to a POD was ignored without any test failing.",
 [O+"_pod.py", O+"_math_tools.py", O+"_univariate_linear_model_pod.py", O+"_univariate_linear_model_analysis.py", O+"_kriging_pod.py", O+"_kriging_tools.py", O+"_polynomial_chaos_pod.py", O+"_quantile_regression_pod.py", O+"_adaptive_signal_pod.py", O+"_adaptive_hitmiss_pod.py"],
 [("the censored observations are filtered before anything else", "DataHandling.filterCensoredData, POD._run"), ("a given Box-Cox parameter is used, not estimated", "POD._run, _computeLinearModel"),
  ("defaults are replaced by the settings given by the user", "setDefectSizes, setDistribution, setBasis")],
 [], ["public getters and drawings of both studies", "points asked to the physical model"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
