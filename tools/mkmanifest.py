"""Writes MANIFEST.json from the check configuration and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
STATELESS = "stateless model checking of the real code: exhaustive enumeration of %s against a reference model"
T = {
 "C01": ("input matrices up to the size bound", "an independent implementation of the projection formula in long double"),
 "C02": ("selections and selection histories", "the orbital actually used is recognised from the value"),
 "C03": ("atom permutations, divisions and block sizes", "the permuted matrices are known by construction"),
 "C04": ("pairs of atom permutations and block sizes", "the permuted matrices are known by construction"),
 "C05": ("whole calc_J runs over atom orders, selections and file layouts", "formula on the molecules the files were written from"),
 "C06": ("size combinations and atom placements", "acceptance is decided from the placement itself"),
 "C07": ("value pairs and matrices over a boundary alphabet", "decimal rounding by exact arithmetic; the boundary itself (ties within one ulp) left open"),
 "C08": ("log files assembled from sections up to the bound", "values are those written into the file"),
 "C09": ("overlap tables of every size and value pattern", "values are those written into the file"),
 "C10": ("sequences of geometry tables and other sections", "values are those written into the file"),
 "C11": ("population tables of every layout up to the bound", "counts are those written into the file"),
 "C12": ("pun files of every shape up to the bound", "values are those written into the file"),
 "C13": ("truncation points", "what was complete before the cut"),
 "C14": ("token sequences up to the bound", "a reference interpreter of the flag table"),
 "C15": ("flag and file-system states", "a reference resolution rule"),
 "C16": ("the product of option values", "the values given"),
 "C17": ("sequences of informational flags", "exit status, printed flags and descriptions"),
 "C18": ("operation sequences up to the depth bound", "a plain three-dimensional array"),
 "C19": ("shapes and small matrices", "the mathematical definition"),
 "C20": ("copy, assign and edit histories", "independent plain arrays"),
 "C21": ("indices in and around every shape", "range arithmetic; address sanitizer on every execution"),
 "C22": ("setting histories up to the depth bound", "a reference rule per kind"),
 "C23": ("energy lists up to the bound", "a sorted reference list"),
 "C24": ("strings and patterns up to the length bound", "naive definitions of each helper"),
 "C25": ("messages, levels and programs built at each level", "text and location computed beside the call; level 0 as the reference for results"),
 "C26": ("faults and fault pairs of whole calc_J runs", "must fail / must succeed / may do either, per fault; the right values whenever results are printed"),
 "C27": ("read and query histories over several readers", "a fresh reader of the same file"),
 "C28": ("shapes, values, stream formats and edit histories", "the entries as the stream itself writes numbers"),
}
checks = []
for pid in sorted(CHECKS):
    what, oracle = T[pid]
    lvl = CHECKS[pid].get("level", "model_checking")
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "python3 check.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": STATELESS % what if lvl == "model_checking" else "exhaustive fault enumeration on the real code (explicit exploration of every choice sequence) against a reference model",
        "level": lvl,
        "level_note": "Every %s within the bounds recorded in the evidence is executed on the code built from /repo's tree, with address and undefined-behaviour sanitizers, and judged by: %s. Nothing is claimed outside those bounds; the file formats are those of the harness's writers, modelled on Gaussian output." % (
            "choice sequence (" + what + ")", oracle)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the explorer intercepts exit() and main() from the compiler command line of its own builds. Repairs of genuine defects are listed in known_findings.txt; bounds and oracles are described in DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
