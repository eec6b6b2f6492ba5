"""Writes MANIFEST.json from properties.jsonl and the checks that exist in harness/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
    "C01": ("Censor", "CensorTrace", "all small data sets and threshold combinations (ties included) enumerated by TLC and replayed; studies with thresholds compared with studies on the kept points"),
    "C02": ("BoxCox", "BoxCoxTrace", "options x parameter x sign x censoring cross product; raw-data studies compared with studies on data transformed by the specification's rule"),
    "C03": ("LinearPOD", "LinearTrace", "all small integer data sets, decided in exact integer arithmetic by the specification; larger data sets against an independent fit"),
    "C04": ("LinearPOD", "LinearTrace", "all small integer data sets with tabulated Beta bounds; simulated curves judged by rank statistics (>= 5.5 sigma)"),
    "C05": ("Quantile", "QuantileTrace", "integer data sets where the specification derives the regression quantiles by subgradient conditions, plus larger ones"),
    "C06": ("Exceed", "ExceedTrace", "studies with user-given metamodels whose POD is known in closed form; Monte Carlo tolerance >= 5.5 sigma"),
    "C07": ("Curves", "CurvesTrace", "every study type over data families; values, nesting and refusals judged on dense grids"),
    "C08": ("Curves", "CurvesTrace", "piecewise-linear and step curves enumerated by TLC, and every study type"),
    "C09": ("Study", "StudyTrace", "exhaustive short histories and long simulated ones over every setter, valid and invalid values"),
    "C10": ("Study", "StudyTrace", "histories replayed; each run compared with a fresh object in the same configuration"),
    "C11": ("Study", "StudyTrace", "histories replayed; each answer compared with the answers of the last run"),
    "C12": ("Caller", "CallerTrace", "containers x mutation points x classes enumerated"),
    "C13": ("Enrich", "EnrichTrace", "run/fault/rerun histories enumerated by TLC with a recording physical model"),
    "C14": ("Enrich", "EnrichTrace", "run/fault/rerun histories enumerated by TLC with a recording physical model"),
    "C15": ("Summary", "SummaryTrace", "every subset of the methods and every short history of toggles, runs, tables, files and graphs enumerated by TLC, long ones simulated; printed values compared with the studies, the studies with studies on their own"),
    "C16": ("Analysis", "AnalysisTrace", "data families x options; every accessor compared with independent references and with table and file cells"),
    "C17": ("FromAnalysis", "FromAnalysisTrace", "options cross product"),
    "C18": ("Sobol", "SobolTrace", "chaos studies with user-given chaos; indices against closed forms and an independent evaluation"),
    "C19": ("Pli", "PliTrace", "recorded Monte Carlo runs; indices recomputed from the definition"),
    "C20": ("PliPod", "PliPodTrace", "selections and size changes enumerated by TLC"),
    "C21": ("Graphs", "GraphsTrace", "drawing options enumerated by TLC; axes data compared with the study"),
    "C22": ("Progress", "ProgressTrace", "iteration counts, report counts and bar lengths enumerated by TLC; studies run with and without verbosity"),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        m, t, how = T[i]
        checks.append({
            "property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": "TLA+ specification (spec/%s.tla) checked by TLC; its behaviours are replayed into otpod and the recorded traces are judged by TLC against spec/%s.tla" % (m, t),
            "level": "model_checking",
            "level_note": "Bounded: " + how + ". Trusts TLC, openturns/scipy primitives used as references and the recording harness.",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks drive the public API of the code in /repo (editable install)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
