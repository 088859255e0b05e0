#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the property files that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(ids, s):
    for i in ids.split():
        T[i] = s
t("C01 C02 C04 C06 C08 C36", "property-based testing: generated event histories against a reference model, shrinking")
t("C03", "property-based testing: generated events, schedules and failures against sequential rendering, shrinking")
t("C05 C28 C34 C35", "property-based testing: model-based generation of operation sequences, shrinking")
t("C07", "property-based testing: partition/metamorphic relations and a reference noise pipeline, shrinking")
t("C11", "property-based testing and fuzzing: structured generation and mutation of file bytes against a reference parser")
t("C29", "property-based testing with injected allocation faults: every allocation failed in turn, shrinking")
D = "property-based testing: generated inputs against a reference model, shrinking"
NOTE = "generated-input search: no counterexample within the generated domain (counts in the evidence file); assumes gcc -O1 with AddressSanitizer represents the shipped build, and numeric oracles hold within stated tolerances"
LEVEL = {"C29": "fault_enumeration"}
NA = {}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    i = json.loads(line)["id"]
    if os.path.exists(V + "/harness/props/%s.c" % i):
        checks.append({"property": i, "quick_cmd": "python3 run_check.py " + i, "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, D), "level": LEVEL.get(i, "exploration"), "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 run_check.py", "checks": checks, "not_applicable": na,
     "notes": "no hooks in /repo: the checks link the library with --wrap=malloc etc. instead; known findings and fixes are in known-findings.txt"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
