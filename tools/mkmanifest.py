#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "reference-model monitor over generated and exhaustive executions"
T = {p: MON for p in ["C%02d" % i for i in list(range(1, 17)) + [21, 22, 29, 30]]}
T["C01"] = T["C02"] = "differential monitor against an independent RFC 8259 reader"
T["C17"] = "crash, panic and hang monitor under hostile inputs (breadcrumbs, fresh-process confirmation)"
T["C18"] = "counting allocator and processor-time monitor over doubling sizes"
T["C19"] = "result digests over histories, threads and processes; ThreadSanitizer"
T["C20"] = "AddressSanitizer, Miri, valgrind and an allocation-balance monitor"
DER = {}
pend = []
try:
    exec(open(os.path.join(here, "tools", "manifest_derive.py")).read())
except FileNotFoundError:
    pend = ["C23", "C24", "C25", "C26", "C27", "C28", "C31"]
T.update(DER)
note = ("Held on the executions observed (counts in the evidence file), which include exhaustive small spaces and random ones; trusts the reference model of the harness, rustc and std. "
        "Says nothing about inputs that are far from everything generated.")
checks = [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
           "technique": T[p], "level": "exploration", "level_note": note} for p in sorted(T)]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "monitor under construction"} for p in pend],
     "notes": "No hooks in /repo: everything is observed at the public API, at the allocator, at the process boundary and (derives, json_quote, json_parse) inside the compiler that runs them."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
