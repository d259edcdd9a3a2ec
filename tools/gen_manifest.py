"""Writes MANIFEST.json from the properties and the drivers that exist."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "sa"))
import main, lints
NA = {
 "C50": "Whether a numerical minimiser reaches the global minimum depends on the likelihood surface at run time; no static argument over the source bounds it (the minimiser is external code).",
 "C51": "Unbiasedness and coverage are statements about distributions of fit results in the large-sample limit; they are statistical, not decidable from the source.",
 "C52": "Relative floating-point precision of log1p-based kernels needs an error analysis of the libm routines; the static domain used here is exact real arithmetic.",
 "C53": "Finiteness quantifies over floating-point overflow of runtime contents and the conditioning of matrices; the exact-arithmetic domain cannot express it.",
 "C54": "The p-value is computed by adaptive quadrature of external code; its numerical accuracy cannot be decided from the source of this package.",
}
TECH = {
 "C38": "call-graph effect rule (who may draw/seed random numbers) over the syntax trees of the package",
 "C39": "static consistency rules over the package (call arity, attributes, names, self-recursive properties)",
}
DEF = "abstract interpretation of the source over symbolic contents (value numbering of array expressions), compared with the specified expression"
NOTE = ("Sound up to the library models in /verif/sa for the drivers' shapes: bin contents, edges, weights, parameters and (in mode sym) "
        "numbers of bins are symbolic, so a discharged obligation covers all of them; numbers of templates/channels are the drivers'. "
        "Exact arithmetic; obligations the analysis cannot decide are reported as undecided and raise no alarm.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif main.drivers(i, "quick") or i in lints.RULES:
        t = TECH.get(i, DEF)
        if i in lints.RULES and i in TECH and main.drivers(i, "quick"):
            t += "; " + DEF
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other",
                       "level_note": NOTE if i not in TECH else "Rule over all files of the package; calls through values the rule cannot resolve are counted as unresolved and raise no alarm."})
    else:
        na.append({"property": i, "reason": "No check has been built for it yet."})
json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'", "checks": checks,
           "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
