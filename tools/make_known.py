"""Writes known_findings.json (never called by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = []
def k(i, prop, key, clauses, what):
    known.append({"id": i, "property": prop, "status": "known", "key": key, "clauses": clauses, "what": what})
for prop in ("C04", "C07"):
    k("K1-" + prop, prop, "binomial confidence curve where every residual exceeds the gap",
      ["binomial_nested_full"],
      "the linear POD without residual law has a confidence curve equal to c^(1/n) where all n residuals exceed the gap: it increases with the confidence level c (existing tests freeze numbers that depend on it)")
for n, r in ((5, 1), (5, 2)):
    k("K2-%d-%d" % (n, r), "C04", "binomial confidence curve counts one residual less, n=%d r=%d" % (n, r),
      ["curve_count"],
      "with n=%d residuals of which %d exceed the gap, rounding in the number of residuals makes the confidence curve use %d (existing tests freeze numbers that depend on such truncations)" % (n, r, r - 1))
for kind in ("kriging", "adaptive"):
    k("K3-" + kind, "C18", "kriging Sobol indices use the standard deviation of the first defect size", ["pod_at_the_size_" + kind],
      "the Sobol study of a %s POD with several defect sizes standardises all sizes with the kriging standard deviation of the first one (an existing test freezes a number that depends on it)" % kind)
fixed = [
 ("C02", "cbe36a9", "a Box-Cox parameter given by the user was ignored by the POD studies"),
 ("C02", "d723c58", "the quantile regression study reported the Box-Cox parameter of its last bootstrap sample"),
 ("C09", "f502bc6", "refused defect sizes were stored all the same"),
 ("C10", "dc71a98", "default distribution and chaos strategies of the first run were kept in later runs"),
 ("C06", "549e652", "a given chaos result could not be used without giving its distribution"),
 ("C06", "60d53d5", "a given kriging result was always refused"),
 ("C13", "2486a2e", "a failure of the physical model left one point without signal"),
 ("C13", "84037f6", "the covariance model was never optimized again when Q2 is low"),
 ("C21", "3b744ad", "the validation graph of the adaptive signal study failed"),
 ("C13", "9a77352", "the enrichment criterion used the metamodel of the first design only"),
 ("C14", "7c5db83", "the study failed when no candidate was in the probability window"),
 ("C14", "989d108", "the same candidate was added several times"),
 ("C14", "187bc4e", "a failure of the physical model left an inconsistent design"),
 ("C14", "add08e7", "all successive classifiers used the confusion matrix of the last one"),
 ("C21", "89fc954", "the graph directory of the hit/miss study was not created"),
 ("C08", "0a8330c", "the names of the detection sizes gave 28 for 0.29"),
 ("C11", "bc7699e", "changing a parameter after a run changed or broke the results of that run"),
 ("C07", "f78de4b", "kriging POD and confidence curves left [0,1]"),
 ("C15", "0596b01", "missing line break in the saved summary"),
 ("C15", "8544f19", "graphs of the summary failed without probability level or with a given Box-Cox parameter"),
 ("C15", "4493f39", "the summary mixed the results of different runs"),
 ("C19", "87835aa", "the failure points of a Less/GreaterOrEqual event were wrong"),
 ("C18", "75f45ae", "the aggregated POD of the chaos used the defect sizes of the POD study"),
 ("C18", "3e51bdd", "the sign test of the kriging variance was wrong"),
 ("C09", "c4968ea", "setBasis accepted an integer, and the next run failed"),
 ("C11", "838ce44", "the validation graph of a kriging study changed as soon as another kriging result was given"),
 ("C02", "2dbe2f1", "a Box-Cox parameter given as a numpy float was replaced by the estimated one"),
 ("C07", "50a5e7c", "confidence curves of the quantile regression study crossed each other"),
 ("C21", "bca2fe0", "drawPOD over the default range failed for some data because of a rounding of the last abscissa"),
 ("C06", "ea95dba", "the kriging POD dropped the dependence between the other inputs"),
 ("C12", "b15db74", "distributions and classifier parameters given by the user were stored by reference; a chaos run renamed the user's distribution"),
 ("C13", "6da1ab7", "a new run added candidates that were already in the design, or failed on a singular matrix"),
 ("C14", "222a363", "a new run added candidates that were already in the design"),
 ("C17", "2b39e94", "a Box-Cox option given along with a linear analysis was silently ignored"),
 ("C19", "6b6af15", "the perturbed mean of a uniform input was NaN for inputs with a large unit and near the original mean"),
 ("C19", "1c6190b", "the perturbed variance of a uniform input was wrong or failed for inputs with small or large units"),
 ("C19", "d6a258e", "the PLI graph failed with deltas given for each input, and rounded the Hellinger abscissas to 0 with integer deltas"),
 ("C20", "6cee598", "after a change of the defect sizes a PLI study gave a class instead of refusing its objects"),
 ("C21", "7284f99", "the validation graph cut the points when signals are negative"),
 ("C18", "177c38d", "the graphs of the Sobol indices mixed the parameters given after the run with the results of the last run"),
 ("C07", "3d0d91d", "the POD of a hit/miss study was NaN when a class was never predicted by one of the classifiers"),
 ("C22", "d158c47", "the progress of the hit/miss study could end without reporting 100 percent"),
]
import sys
fx = ["fixed: property=%s %s %s" % f for f in fixed]
json.dump({"findings": known, "fixed": fx}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
