#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from check.py's table (run by hand after changing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
TECH = {
 "C01": "runtime monitor: every returned itinerary executed against the timetable (ASan/UBSan build, random networks)",
 "C02": "runtime monitor: limits and scenario admission recomputed for every returned itinerary",
 "C03": "runtime oracle: earliest-arrival reference over the observed answers",
 "C04": "runtime oracle: latest-departure reference over the observed answers",
 "C05": "runtime oracle: latest departure meeting the reported arrival",
 "C06": "runtime monitor: totals recomputed from the steps of every observed itinerary",
 "C07": "runtime oracle: reason predicates recomputed for every no_routing_found answer",
 "C08": "runtime oracle: per-stop earliest-alighting reference over observed maps",
 "C09": "runtime oracle: per-stop latest-boarding reference over observed maps",
 "C10": "runtime monitor: alternatives compared with the plain answer and validated",
 "C11": "runtime differential monitor: restricted scenario vs data set without the excluded trips",
 "C12": "runtime metamorphic monitor: shifted data and request vs shifted answer",
 "C13": "runtime differential monitor: answers after random histories vs a freshly started server",
 "C14": "ThreadSanitizer + injected delays at locks, atomics and function entries (link-time wrapping) under stress; every answer compared with the one of an idle server",
 "C15": "runtime differential monitor: refreshed server vs freshly started one (ASan server)",
 "C16": "runtime oracle on the real server over generated cache files and a scripted walking router",
 "C17": "fault injection in the cache files of an ASan server; liveness and classification monitor",
 "C18": "grammar-based HTTP workload on an ASan server; framing, classification and default-equivalence monitor",
 "C19": "runtime differential monitor: summary recounted from the route answer of the same query",
 "C20": "fault injection in the walking router (scripted stub); liveness, classification and recovery monitor",
}
import subprocess
hooks = subprocess.run(["git", "-C", check.B.REPO, "log", "--format=%H", "--grep=^hooks:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 bin/build.py " + " ".join(sorted({t for p in check.P.values() for q in p["parts"] for t in [q.target] + q.servers})),
     "hooks": {"guard": "TRROUTING_VERIF", "enable": "no hooks are needed in /repo: instrumentation is added by the compiler and by link-time wrapping (ld --wrap) in bin/build.py", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in sorted(check.P):
    m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py " + p, "technique": TECH[p],
                        "level": check.P[p]["level"], "level_note": check.P[p].get("note", "no proof: decides on the executions observed, counted in the evidence file; reach comes from generated workloads")})
json.dump(m, open(os.path.join(check.VERIF, "MANIFEST.json"), "w"), indent=1)
