#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a harness."""
import glob, json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C40": "The passes need LLVM 12 headers and libraries to build, which are not installed, and the property quantifies over all programs: there is no bounded function of the passes whose symbolic execution (over LLVM's own IR data structures) is within reach.",
 "C41": "Grammar extraction runs on traces of basic-block events that this version of the runtime no longer writes (no trace type implements them), so there is no real input format to encode; the merging algorithm allocates string-keyed graphs whose symbolic execution would only enumerate concrete shapes.",
}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    cpp = bool(glob.glob(H + "/harness/h_%s*.cpp" % i))
    py = bool(glob.glob(H + "/pyharness/h_%s*.py" % i))
    if not (cpp or py) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "No harness yet: its symbolic encoding is still being built.")})
        continue
    txt = ""
    for f in glob.glob(H + "/harness/h_%s*.cpp" % i) + glob.glob(H + "/pyharness/h_%s*.py" % i):
        txt += open(f).read()
    bounds = re.findall(r"^(?://|#) @bound (.*)$", txt, re.M)
    t = []
    if cpp:
        t.append("symbolic execution of the compiled LLVM IR with z3")
    if py:
        t.append("symbolic execution of the Python source with z3")
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "solver-based: " + " and ".join(t) + "; counterexamples replayed on the real code",
        "level": "model_checking",
        "level_note": "Exhaustive within: " + "; ".join(bounds) + ". Assumptions and what is outside are in DESIGN.md and the evidence file."})
m = {"version": 1, "setup_cmd": "python3 -c \"import check; check.build_symir()\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources as they are. Fixes in /repo are listed in known_findings.jsonl."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
