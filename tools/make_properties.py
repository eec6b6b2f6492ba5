import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
o='otpod/'
p("C01","Censoring splits the data without losing, duplicating or reordering any point",
"For every data set and every combination of noise and saturation thresholds (either may be absent), each observation falls in exactly one class: noise-censored when its signal is at or below the noise threshold, saturation-censored when at or above the saturation threshold, uncensored when strictly between; inputs stay paired with their own signals and the original order is kept. Chaos, kriging and adaptive signal studies given thresholds answer exactly like studies given only the uncensored points, so does the POD curve of a quantile regression (its bootstrap resamples the given data before filtering them), and the linear studies use the censored points only through the censored likelihood.",
["inputs","configurations"],"all data sets (ties with the thresholds included), all threshold combinations, all study types, dimensions 1 and more",
"the tests use one data set with one pair of thresholds never equal to a signal; the boundary and one-sided cases and the pairing of multi-column inputs are not sampled",
[o+"_math_tools.py",o+"_pod.py",o+"_univariate_linear_model_pod.py",o+"_univariate_linear_model_analysis.py"],
[("DataHandling.filterCensoredData",o+"_math_tools.py"),("POD._run",o+"_pod.py"),("_computeLinearModel",o+"_univariate_linear_model_pod.py")],
["otpod.DataHandling.filterCensoredData","getPODModel of every study","UnivariateLinearModelAnalysis accessors"])
p("C02","Box-Cox is applied to signals and thresholds consistently",
"When the Box-Cox transformation is enabled, the signals kept after censoring, the detection threshold and the censoring thresholds are all transformed with one and the same parameter and shift (a positive shift only when a kept signal is negative), so a study on raw data answers like a study without the transformation on the already transformed data (a bootstrap sample being transformed as a data set of its own). A parameter given by the user is the one used and reported; otherwise the one estimated from the kept signals is used and reported, and none is reported when the transformation is off.",
["inputs","configurations"],"all data sets (negative signals included), parameter values including 0 and negative ones, all study types, with and without censoring",
"tests never give a numeric parameter and check a few reference numbers for one data set",
[o+"_pod.py",o+"_univariate_linear_model_pod.py",o+"_univariate_linear_model_analysis.py",o+"_quantile_regression_pod.py",o+"_math_tools.py"],
[("POD._run Box-Cox block",o+"_pod.py"),("_computeLinearModel Box-Cox block",o+"_univariate_linear_model_pod.py"),("UnivariateLinearModelAnalysis._run",o+"_univariate_linear_model_analysis.py")],
["getBoxCoxParameter","getPODModel","computeDetectionSize","getOutputDOE"])
p("C03","Linear POD curves are the documented function of the fitted line",
"For every data set, the POD at a defect size is the probability that fitted line plus residual exceeds the detection threshold: the fraction of residuals strictly above the gap when no residual law is given, the normal tail with the prediction variance (residual variance plus parameter uncertainty) for normal residuals, and the tail of the law fitted on the residuals otherwise. The line is the least-squares fit of the kept data, or the censored maximum-likelihood fit when thresholds are given.",
["inputs","configurations"],"all data sets of size three and more, all detection thresholds, all defect sizes, residual hypotheses, censored or not",
"tests compare a handful of detection sizes on one data set with loose tolerances; the curve itself is never compared with its definition",
[o+"_univariate_linear_model_pod.py",o+"_math_tools.py"],
[("_computeLinearModel",o+"_univariate_linear_model_pod.py"),("_PODbinomialModel / _PODgaussModel / _PODbootstrapModel",o+"_univariate_linear_model_pod.py"),("computeLinearParametersCensored / MLE",o+"_math_tools.py")],
["UnivariateLinearModelPOD.getPODModel","getR2"])
p("C04","Linear confidence curves are the lower bounds they claim to be",
"For every data set and confidence level, the confidence curve without residual law is one minus the Beta quantile associated with the number of residuals above the gap and the sample size, and with a residual law it is the quantile of one minus the confidence level over exactly the requested number of simulated curves, whose parameters follow the sampling law of the regression. It never increases when the confidence level increases.",
["inputs","configurations"],"all data sets, confidence levels in ]0,1[, defect sizes, simulation sizes, residual hypotheses",
"tests check one confidence level (0.95) on one data set through one detection size",
[o+"_univariate_linear_model_pod.py"],
[("_PODbinomialModelCl",o+"_univariate_linear_model_pod.py"),("_PODgaussModelCl",o+"_univariate_linear_model_pod.py"),("_PODbootstrapModelCl",o+"_univariate_linear_model_pod.py"),("getPODCLModel",o+"_univariate_linear_model_pod.py")],
["UnivariateLinearModelPOD.getPODCLModel","computeDetectionSize"])
p("C05","Quantile-regression POD inverts the regression quantiles",
"For every data set, the POD curve passes through the defect size where the regression line of level one minus p crosses the detection threshold, at height p, for every requested probability p, is linear between those sizes and starts from zero at size zero; the detection size for p is that same crossing, and is refused when the crossing is outside the observed sizes. The confidence curve is built in the same way from the quantile, at the confidence level, of the crossings over the requested number of bootstrap samples, taken in increasing order.",
["inputs","configurations"],"all data sets, probability lists in any order, levels, confidence levels",
"tests check three detection sizes on one data set with the default list of probabilities",
[o+"_quantile_regression_pod.py"],
[("run",o+"_quantile_regression_pod.py"),("getPODCLModel",o+"_quantile_regression_pod.py"),("computeDetectionSize",o+"_quantile_regression_pod.py")],
["QuantileRegressionPOD.getPODModel","getPODCLModel","computeDetectionSize","getR2"])
p("C06","Metamodel POD is the exceedance frequency of the metamodel over the inputs",
"For polynomial chaos, kriging and adaptive signal studies, the POD at each requested defect size is, within Monte Carlo accuracy, the probability over the law of the other inputs and the metamodel error that the predicted signal exceeds the detection threshold; a given distribution, degree, strategy, basis, covariance model or ready-made metamodel is the one used. Their confidence curves are the quantile of one minus the confidence level over the requested number of simulated metamodels. Between requested sizes the curve is linear, and the reported quality indices are those of the metamodel on the kept data.",
["inputs","configurations"],"smooth test functions of one to three inputs, distributions, thresholds, defect-size lists, user-given components",
"tests check one detection size per configuration against frozen numbers with 1e-2 tolerances",
[o+"_polynomial_chaos_pod.py",o+"_kriging_pod.py",o+"_kriging_tools.py",o+"_adaptive_signal_pod.py"],
[("_computePOD",o+"_polynomial_chaos_pod.py"),("_computePODSamplePerDefect / _randomVectorSampling",o+"_kriging_tools.py"),("_computeQ2",o+"_kriging_tools.py"),("getR2 / getQ2",o+"_polynomial_chaos_pod.py")],
["getPODModel","getPODCLModel","getQ2","getR2","getDistribution"])
p("C07","Every POD curve is a probability and confidence curves are nested",
"For every study type and every data set, after a successful run the POD curve and the confidence curve at any level take values in [0,1] over the whole range of studied defect sizes; for a fixed run the confidence curve never increases with the confidence level. Studies defined on a list of defect sizes refuse to extrapolate outside that list and drawing bounds outside it.",
["inputs","configurations"],"all study types, data sets, defect sizes, confidence levels in ]0,1[",
"tests evaluate detection sizes only, at one or two levels",
[o+"_univariate_linear_model_pod.py",o+"_quantile_regression_pod.py",o+"_polynomial_chaos_pod.py",o+"_kriging_tools.py",o+"_adaptive_hitmiss_pod.py",o+"_adaptive_signal_pod.py"],
[("getPODModel / getPODCLModel of each class",o)],
["getPODModel","getPODCLModel","drawPOD"])
p("C08","A detection size solves the curve it is named after, or is refused",
"Whenever a detection size is returned for probability p (and confidence level c), it lies in the studied range, the POD curve (respectively the confidence curve at c) takes the value p there up to a jump of the curve, and its names give p and c in percent. It is refused with an error exactly when the curve does not span p over the studied range; the value without a confidence level is the same as the first value with one. (For quantile regression the size without confidence level is the crossing described by C05.)",
["inputs","configurations"],"all study types, curves (flat parts, jumps, spanning or not), probability and confidence levels",
"tests ask for 0.9 and 0.95 only, on curves that span them",
[o+"_pod.py",o+"_quantile_regression_pod.py"],
[("POD._computeDetectionSize",o+"_pod.py"),("computeDetectionSize of each class",o)],
["computeDetectionSize"])
p("C09","Accepted parameters are stored, rejected ones change nothing",
"For every study, sensitivity or summary object and every sequence of parameter changes, an accepted value is the one read back afterwards (lists of defect sizes and probabilities sorted) and a value outside the documented domain is refused with an error. A refused call leaves every parameter and every result of the object as they were.",
["histories","inputs"],"all interleavings of valid and invalid parameter changes, runs and queries on every public class",
"tests never call a setter with an invalid value and then keep using the object",
[o+"_kriging_tools.py",o+"_polynomial_chaos_pod.py",o+"_adaptive_hitmiss_pod.py",o+"_quantile_regression_pod.py",o+"_sobol_indices.py",o+"_pli_pod.py",o+"_pod_summary.py"],
[("setDefectSizes",o+"_kriging_tools.py"),("setQuantile",o+"_quantile_regression_pod.py"),("setPMin / setPMax / setClassifierType",o+"_adaptive_hitmiss_pod.py"),("setSensitivityMethod / setDistribution",o+"_sobol_indices.py"),("setMethodActive",o+"_pod_summary.py")],
["every set*/get* pair"])
p("C10","A run depends only on the data and the current parameters",
"For every study that adds no point to a design and every history of parameter changes, runs, queries and refused calls, running it gives the same answers as a new object given the same data and parameters and run from the same random state. No other object, earlier run or earlier value of a parameter leaves a trace in the results.",
["histories","configurations"],"all histories over parameter changes, runs and queries, all study types, several objects interleaved",
"tests build one object, run it once and read it",
[o+"_polynomial_chaos_pod.py",o+"_kriging_pod.py",o+"_quantile_regression_pod.py",o+"_univariate_linear_model_pod.py",o+"_sobol_indices.py",o+"_pli_pod.py"],
[("run of each class",o),("_buildChaosAlgo",o+"_polynomial_chaos_pod.py"),("_buildKrigingAlgo",o+"_kriging_tools.py")],
["getPODModel","getPODCLModel","computeDetectionSize","getQ2","getIndices"])
p("C11","Between two runs the answers are those of the last run",
"Once a study has run, its curves, detection sizes, quality indices and graphs describe that run until the next one, whatever parameters are changed and whatever is asked in between. Asking (curves, sizes, tables, graphs, files) never changes any later answer, and a curve already returned keeps its values after a later run.",
["histories"],"all interleavings of parameter changes and queries after a run, all study types",
"tests read results right after the run and never change a parameter afterwards",
[o+"_kriging_tools.py",o+"_polynomial_chaos_pod.py",o+"_quantile_regression_pod.py",o+"_univariate_linear_model_pod.py",o+"_adaptive_hitmiss_pod.py"],
[("getPODCLModel",o),("computeDetectionSize / drawPOD",o)],
["getPODModel","getPODCLModel","computeDetectionSize","drawPOD"])
p("C12","User data are copied, never modified, and accepted in any container",
"Building, configuring, running and querying any object leaves the samples, lists, arrays and distributions passed by the caller with the same values, and changing them afterwards changes nothing in the object. The answers do not depend on whether data are given as lists, arrays or library samples, and inconsistent data (too few points, sizes or dimensions that do not match) are refused at construction.",
["inputs","histories"],"all public constructors and setters, all container types, mutation of the caller's data at any point",
"tests always pass one container type and never look at it again",
[o+"_pod.py",o+"_univariate_linear_model_analysis.py",o+"_pod_summary.py",o+"_quantile_regression_pod.py",o+"_kriging_tools.py"],
[("POD.__init__",o+"_pod.py"),("UnivariateLinearModelAnalysis.__init__",o+"_univariate_linear_model_analysis.py"),("setQuantile / setDefectSizes copies",o)],
["constructors","getPODModel"])
p("C13","Adaptive signal study enriches its design exactly as announced",
"Each run of an adaptive signal study adds exactly the requested number of points after the existing ones, all distinct, drawn within the law of the inputs, each with the signal the physical model returns for it, evaluated once, and the final metamodel and POD are built on the enriched design. Each added point is the candidate that minimizes the integrated mean squared error of the POD, and the covariance scales are estimated again after it exactly when the predictivity factor is lower than 0.95. If the physical model fails, the design stays consistent (as many signals as points, earlier points untouched) and the study can be run again.",
["histories","fault_sequences","configurations"],"all initial designs, numbers of points, candidate sizes, Box-Cox and censoring options, failures at any evaluation, repeated runs",
"tests run one study per option with one added point and compare a final number",
[o+"_adaptive_signal_pod.py",o+"_kriging_tools.py"],
[("run loop",o+"_adaptive_signal_pod.py")],
["getInputDOE","getOutputDOE","calls received by the physical model"])
p("C14","Adaptive hit/miss study enriches its design exactly as announced",
"Each run of an adaptive hit/miss study adds exactly the requested number of points after the existing ones, all distinct, drawn within the law of the inputs, each labelled with the outcome of the physical model at that point (one exactly when the signal exceeds the detection threshold if one is given); at every improvement candidates whose probability, by the classifier in force, lies in the requested window are preferred, and the final classifier, its confusion matrix and the POD are those of the enriched design. If the physical model fails, the design stays consistent and the study can be run again.",
["histories","fault_sequences","configurations"],"all initial designs with both outcomes, numbers of points, probability windows, classifiers, failures at any evaluation, repeated runs",
"tests check one detection size for two classifiers",
[o+"_adaptive_hitmiss_pod.py"],
[("run loop",o+"_adaptive_hitmiss_pod.py")],
["getInputDOE","getOutputDOE","getConfusionMatrix","calls received by the physical model"])
p("C15","The summary is the faithful union of its active methods",
"A summary runs exactly the active methods with its own data, thresholds and simulation settings (kriging only with several inputs); its table, saved file and list of graphs contain one entry per active method with the value the same study gives on its own, minus one where no detection size exists, and nothing for inactive methods. Asking for an inactive or not yet run method is refused.",
["configurations","histories"],"all subsets of active methods, dimensions, censoring, toggles between runs, levels",
"no unit test covers the summary; one notebook runs it with everything active",
[o+"_pod_summary.py"],
[("run",o+"_pod_summary.py"),("_buildPrintResults",o+"_pod_summary.py"),("drawGraphs / saveResults",o+"_pod_summary.py")],
["getResults","saveResults","drawGraphs","getLinearGaussPOD ..."])
p("C16","The linear analysis reports one consistent set of values",
"For every data set, the values returned by the accessors of the linear analysis (coefficients, standard error, residuals, R2 and every test p-value, uncensored then censored) are those of the least-squares and censored maximum-likelihood fits, and the printed table and the saved file show the same values in the matching rows and columns. p-values lie in [0,1], and the warnings appear exactly when a test value is under 0.05 or the residual law is not normal.",
["inputs","configurations"],"all data sets, censoring, residual laws, Box-Cox",
"tests compare accessors with frozen numbers on one data set and never read the table or the file",
[o+"_univariate_linear_model_analysis.py",o+"_math_tools.py"],
[("_run / _computeTests / _buildPrintResults",o+"_univariate_linear_model_analysis.py"),("compute*Test",o+"_math_tools.py")],
["accessors","getResults","saveResults","draw*"])
p("C17","A POD built from an analysis equals one built from the same data",
"A linear POD built from a linear analysis and a detection threshold gives the same curves, Box-Cox parameter and detection sizes as one built directly from the data, thresholds, residual law and Box-Cox choice of that analysis, and refuses any other argument beside the threshold. Its fitted line is the one the analysis reports (censored fit when thresholds are given).",
["inputs","configurations"],"all data sets, censoring, residual laws and Box-Cox choices",
"tests compare two of the combinations with frozen numbers",
[o+"_univariate_linear_model_pod.py",o+"_univariate_linear_model_analysis.py"],
[("UnivariateLinearModelPOD.__init__",o+"_univariate_linear_model_pod.py")],
["UnivariateLinearModelPOD(analysis=...)"])
p("C18","Sobol indices are those of the POD at the reported defect sizes",
"A Sobol study computes, with the selected estimator, the sensitivity indices of the POD of its chaos or kriging study (inputs already on a normalised scale for kriging) with respect to the other inputs, one result per reported defect size in the same order; sizes at which the POD does not vary are removed from both. Results are refused before the first run, and studies that are not metamodel based or have fewer than two other inputs are refused.",
["inputs","configurations","histories"],"test functions, defect-size lists with and without null variance, estimators, distributions, repeated runs",
"tests check one study per metamodel with frozen numbers",
[o+"_sobol_indices.py"],
[("run",o+"_sobol_indices.py"),("PODaggrChaos / PODaggrKriging",o+"_sobol_indices.py")],
["getSensitivityResult","getDefectSizes","drawFirstOrderIndices ..."])
p("C19","PLI of a Monte Carlo result follow the reweighting definition",
"For a recorded Monte Carlo run, the perturbed probability for each delta and input is the likelihood-ratio average over the failure points of that run, the index compares it with the original probability with the documented sign convention, a perturbation equal to the original parameter gives an index of zero, and the perturbed law keeps mass one and has the requested mean or variance. Confidence intervals are centred on the index and nested; scaled deltas mean mean plus delta standard deviations, or standard deviation plus delta means squared.",
["inputs","configurations"],"Normal and Uniform inputs, deltas given per input or shared, scaled or not, comparison operators, sample sizes",
"no unit test covers PLI; one notebook runs it without checking values",
[o+"_pli.py"],
[("run / _computePfdelta / _computePLIndices",o+"_pli.py"),("_perturbedMarginalPDF",o+"_pli.py"),("_getFailureSample",o+"_pli.py")],
["getIndices","getPerturbedProbabilityEstimate","getDeltaSample","computeConfidenceInterval"])
p("C20","PLI of a POD are kept exactly where the POD is informative",
"For each defect size of a PLI study, indices are the ones of the Monte Carlo run at that size when its probability is strictly between 0.001 and 0.999, and undefined (NaN, no object, no graph) otherwise; any selection by delta, input or defect is the matching slice of the full table. The table has one entry per delta, input and current defect size, also after the sizes are changed and the study rerun.",
["inputs","configurations","histories"],"defect-size lists spanning certain and uncertain detection, deltas, selections, repeated runs",
"no unit test covers it",
[o+"_pli_pod.py"],
[("run / getIndices / getPLIObject / setDefectSizes",o+"_pli_pod.py")],
["getIndices","getPLIObject","drawIndices","drawContourIndices"])
p("C21","Graphs show the curves and numbers of the study",
"In every POD graph the drawn curve is the POD curve (and the confidence curve at the asked level) over the asked or default range, the horizontal line is at the asked probability, the vertical lines are at the detection sizes and the legend gives the asked levels and those sizes; validation, residual and linear-model graphs show the kept data and the fitted values. When a file name is given that file is written, otherwise none is.",
["inputs","configurations"],"all study types, options of the drawing methods",
"tests never draw",
[o+"_pod.py",o+"_univariate_linear_model_analysis.py",o+"_quantile_regression_pod.py",o+"_polynomial_chaos_pod.py",o+"_kriging_tools.py"],
[("POD._drawPOD",o+"_pod.py"),("_drawValidationGraph",o+"_pod.py"),("draw*",o+"_univariate_linear_model_analysis.py")],
["drawPOD","drawValidationGraph","drawLinearModel","drawResiduals"])
p("C22","Verbosity and progress reporting never affect results",
"With the same random state, results are identical whether verbosity is on or off, and nothing is written on standard output by a run when it is off. When it is on, the progress of each loop is reported with non-decreasing percentages, a bar consistent with the percentage, and ends with one final report of 100 percent, for any number of iterations.",
["inputs","configurations"],"all iteration counts, report counts, bar lengths and study types",
"tests never look at the output",
[o+"_progress_bar.py",o+"_univariate_linear_model_pod.py",o+"_quantile_regression_pod.py",o+"_polynomial_chaos_pod.py",o+"_kriging_pod.py"],
[("updateProgress",o+"_progress_bar.py"),("setVerbose",o)],
["sys.stdout","getPODModel"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=2, x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
