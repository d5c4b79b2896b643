#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for each property that has facets registered
in harness/checks."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(root + "/harness/checks/*_test.go"))
have = set(re.findall(r'pbt\.(?:Random|RandomT|Enum)\(\s*"(C\d\d)"', src)) | set(re.findall(r'// facets: (C\d\d)', src))
TECH = {
    "C07": "stateful model-based property testing of the collector",
    "C08": "stateful model-based property testing on a virtual clock (testing/synctest)",
    "C09": "randomised concurrent schedules under the race detector, with history accounting",
    "C10": "randomised concurrent schedules under the race detector, differential against sequential runs",
    "C24": "property-based differential testing of the built command-line tools",
}
NOTE = {
    "C09": "Schedules are sampled on real threads, not enumerated; the race detector sees only the accesses that were executed.",
    "C10": "Schedules are sampled on real threads, not enumerated; the race detector sees only the accesses that were executed.",
    "C08": "Time is the virtual clock of testing/synctest, so timers fire exactly when they are due; ties between a timer and a call at the same instant are avoided by construction.",
}
BASE = ("Generated inputs are judged by an independent reference model written from 3GPP TS 23.038/23.040; "
        "finite domains are enumerated completely. Trusts that model, the Go runtime and rapid's generators. ")
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p not in have:
        na.append({"property": p, "reason": "its check is not built yet"})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.py %s --tier quick" % p,
        "thorough_cmd": "./check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH.get(p, "property-based testing against a reference model, with coverage-guided fuzzing in the thorough tier"),
        "level": "exploration",
        "level_note": BASE + NOTE.get(p, ""),
    })
m = {"version": 1, "setup_cmd": "cd harness && GOFLAGS='-mod=mod -buildvcs=false' GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off go vet -composites=false ./ref ./pbt ./checks",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the exported API or the built commands. The fix: commits in /repo are listed in known_findings.json."}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
