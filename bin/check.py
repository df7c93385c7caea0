#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Builds the instrumented drivers from /repo's working tree, runs the property's workloads under their monitors and
decides: exit 0 held, exit 1 + VIOLATION line, exit 2 no verdict (build or harness failure, too little observed).
Tier and seed come from VERIF_TIER / VERIF_SEED.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
VERIF = B.VERIF

BUDGET = {"quick": 420.0, "thorough": 5400.0}
CONFIRM = {"quick": 200, "thorough": 900} # seconds for repeating what needs repeating

# evidence that does not have to repeat: the process died with a report of its own (not: was killed, e.g. for memory)
HARD = re.compile(r"^(crash:(?!signal-9|exit-)|tsan:)")
TIMING = re.compile(r"^(start-hang|unanswered|no-answer|not-ready|hang|crash:signal-9|crash:exit-)")

class Part:
    def __init__(self, target, key, quick, thorough, servers=(), confirm=False, minimum=None, share=1.0):
        self.target, self.key, self.cases = target, key, {"quick": quick, "thorough": thorough}
        self.servers = list(servers)       # server binaries the driver starts (passed through the environment)
        self.confirm = confirm             # a violating case is run again alone before it counts: True = of any kind but a crash, "time" = timeouts only
        self.minimum = minimum or {}       # counters that must reach a floor for the run to mean anything (quick values)
        self.share = share

RULE_CALC = "seeded random network (stops, footpaths, lines, paths, trips with boarding flags, scenarios, places) + random queries biased to the data's boundaries; distinct = hash of (data set, query[, answer]); non-trivial = "
P = {
    "C01": dict(level="exploration", rule=RULE_CALC + "a returned itinerary that the monitor executed step by step against the timetable",
                parts=[Part("calc", "C01", 32000, 400000, minimum={"itineraries": 2000, "itineraries_with_transfer": 500})]),
    "C02": dict(level="exploration", rule=RULE_CALC + "a returned itinerary checked against every limit and the scenario definition",
                parts=[Part("calc", "C02", 32000, 400000, minimum={"itineraries": 2000})]),
    "C03": dict(level="exploration", rule=RULE_CALC + "the reference finds some journey for the query",
                parts=[Part("calc", "C03", 32000, 400000, minimum={"expected_success": 2000, "expected_none": 500})]),
    "C04": dict(level="exploration", rule=RULE_CALC + "the reference finds some journey for the query",
                parts=[Part("calc", "C04", 32000, 400000, minimum={"expected_success": 2000, "expected_none": 500})]),
    "C05": dict(level="exploration", rule=RULE_CALC + "successful departure-time answer compared with the latest departure that still meets its arrival",
                parts=[Part("calc", "C05", 32000, 400000, minimum={"successes": 2000})]),
    "C06": dict(level="exploration", rule=RULE_CALC + "a returned itinerary whose totals were recomputed from its steps",
                parts=[Part("calc", "C06", 32000, 400000, minimum={"itineraries": 2000, "itineraries_with_transfer": 500})]),
    "C07": dict(level="exploration", rule=RULE_CALC + "a no_routing_found answer whose reason was compared with the reference predicates",
                parts=[Part("calc", "C07", 32000, 400000, minimum={"reason_NO_ROUTING_FOUND": 300})]),
    "C08": dict(level="exploration", rule=RULE_CALC + "an accessibility map with at least one stop, compared stop by stop",
                parts=[Part("calc", "C08", 32000, 400000, minimum={"non_empty_maps": 2000})]),
    "C09": dict(level="exploration", rule=RULE_CALC + "an accessibility map with at least one stop, compared stop by stop",
                parts=[Part("calc", "C09", 32000, 400000, minimum={"non_empty_maps": 2000})]),
    "C10": dict(level="exploration", rule=RULE_CALC + "an answer with more than one route",
                parts=[Part("calc", "C10", 32000, 300000, minimum={"answers_with_alternatives": 1000})]),
    "C11": dict(level="exploration", rule=RULE_CALC + "a successful answer under a scenario that excludes at least one trip, compared with the data set without those trips",
                parts=[Part("calc", "C11", 32000, 400000, minimum={"queries_with_exclusions": 2000})]),
    "C12": dict(level="exploration", rule=RULE_CALC + "a successful answer compared with the answer to the shifted request on the shifted data",
                parts=[Part("calc", "C12", 32000, 300000, minimum={"successes": 2000})]),
    "C13": dict(level="exploration", rule="seeded random network, requests and histories (other scenarios and endpoints, failed and invalid requests, repetitions, one or all connection sets kept); distinct = hash of (data set, request, answer); non-trivial = a successful answer after a history, equal to the one without it",
                parts=[Part("calc", "C13calc", 6000, 100000, minimum={"comparisons": 30000}, share=0.3),
                       Part("http", "C13http", 250, 6000, servers=("server-asan",), confirm=True, minimum={"comparisons": 2000})]),
    "C14": dict(level="exploration", rule="seeded random network, request mix over several scenarios, threads, client pattern, delay schedule and refreshes; distinct = hash of (request, burst, client); non-trivial = a successful answer among concurrent requests, equal to the one of an idle server",
                parts=[Part("race", "C14calc", 2000, 60000, minimum={"concurrent_answers": 150000, "parked_threads": 4000, "rounds_with_several_scenarios": 3000}, share=0.35),
                       Part("http", "C14tsan", 60, 2500, servers=("server-tsan",), confirm="time", minimum={"concurrent_answers": 3000, "bursts_with_refresh": 30}, share=0.4),
                       Part("http", "C14asan", 300, 8000, servers=("server-asan",), confirm="time", minimum={"concurrent_answers": 10000}, share=0.25)]),
    "C15": dict(level="exploration", rule="seeded random pairs of cache states (edited, replaced, reordered, faulty) and refresh requests; distinct = hash of (data set, request); non-trivial = a successful answer after a refresh, equal to the one of a fresh start on the same files",
                parts=[Part("calc", "C15calc", 6000, 100000, minimum={"comparisons": 30000}, share=0.2),
                       Part("http", "C15http", 400, 8000, servers=("server-asan",), confirm=True, minimum={"comparisons": 3000}, share=0.6),
                       Part("http", "C15load", 100, 3000, servers=("server-tsan", "server-asan"), confirm="time", minimum={"after_refresh": 1500, "during_telling_refresh": 100}, share=0.3)]),
    "C16": dict(level="exploration", rule="seeded random data sets encoded to Cap'n Proto files by the machinery's own writer; distinct = hash of (data set, query, answer); non-trivial = a successful answer compared with the reference on the abstract data set",
                parts=[Part("calc", "C16calc", 8000, 200000, minimum={"successes": 10000, "stops_compared": 50000}, share=0.4),
                       Part("http", "C16http", 500, 10000, servers=("server-asan",), confirm=True, minimum={"successes": 1000})]),
    "C17": dict(level="fault_enumeration", rule="cache files of a seeded random data set with injected faults (missing, empty, truncated at a sampled or at every byte, flipped bits, foreign identifiers, wrong shapes) at start-up and at refresh; distinct = hash of (file, fault, data set); non-trivial = the server served requests or named missing data under the fault",
                parts=[Part("calc", "C17calc", 2000, 60000, minimum={"faults": 4000, "served": 3000}, share=0.5),
                       Part("http", "C17http", 400, 8000, servers=("server-asan",), confirm=True, minimum={"data_errors": 1000, "served": 1000})]),
    "C18": dict(level="exploration", rule="grammar of valid, defective and odd HTTP requests (spellings, orders, duplicates, encodings, extreme integers, raw byte streams, kept-alive connections); distinct = hash of the request target; non-trivial = a request whose answer was framed, classified and compared",
                parts=[Part("http", "C18http", 600, 15000, servers=("server-asan",), confirm=True, minimum={"defects_classified": 4000, "valid_compared": 4000, "refresh_requests": 1000})]),
    "C19": dict(level="exploration", rule=RULE_CALC + "a summary with at least one line, recounted from the route answer of the same query",
                parts=[Part("calc", "C19calc", 8000, 200000, minimum={"lines_checked": 20000, "summaries_of_alternatives": 2000}, share=0.4),
                       Part("http", "C19http", 400, 10000, servers=("server-asan",), confirm=True, minimum={"summaries_compared": 2500})]),
    "C20": dict(level="fault_enumeration", rule="every kind of router fault (see DESIGN.md) at the first, second or all table requests or under concurrent requests; distinct = hash of (fault, data set, query); non-trivial = a request whose router request got the fault",
                parts=[Part("http", "C20http", 300, 8000, servers=("server-asan",), confirm=True, minimum={"affected_requests": 4000, "answers_after_recovery": 3000, "outages": 100})]),
}

def known_findings():
    """finding: property=C.. key=<key> [witness=<name>] :: text   (suppresses exactly that key)"""
    r = []
    f = os.path.join(VERIF, "known-findings.txt")
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", line.strip())
        if m:
            r.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return r

def env_for(paths, part):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:handle_abort=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:atexit_sleep_ms=0"
    for s in part.servers:
        e["VERIF_" + s.upper().replace("-", "_")] = paths[s]
    return e

def run_part(paths, part, seed, tier, scratch, cases=None, only=None, budget=None, show=False):
    out = os.path.join(scratch, "out-%s-%s.json" % (part.key, only if only is not None else "all"))
    sc = os.path.join(scratch, "s-%s-%s" % (part.key, only if only is not None else "all"))
    cmd = [paths[part.target], "--prop", part.key, "--seed", str(seed), "--tier", tier, "--scratch", sc, "--out", out]
    if only is not None:
        cmd += ["--only-case", str(only)]
    else:
        cmd += ["--cases", str(cases)]
        if budget:
            cmd += ["--budget", str(budget)]
    r = subprocess.run(cmd, env=env_for(paths, part), stdout=None if show else subprocess.PIPE, stderr=None if show else subprocess.STDOUT)
    shutil.rmtree(sc, ignore_errors=True)
    if r.returncode != 0 or not os.path.exists(out):
        return None, "driver ended with %s: %s" % (r.returncode, (r.stdout or b"").decode(errors="replace")[-1500:])
    return json.load(open(out)), None

def main():
    prop = sys.argv[1]
    spec = P[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    targets = []
    for p in spec["parts"]:
        for t in [p.target] + p.servers:
            if t not in targets:
                targets.append(t)
    try:
        paths, info = B.build(targets)
    except B.BuildError as e:
        print("BUILD FAILED (no verdict)\n" + str(e)[-6000:])
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
    try:
        if replay:
            j = json.load(open(replay))
            part = [p for p in spec["parts"] if p.key == j["part"]][0]
            res, err = run_part(paths, part, j["seed"], j["tier"], scratch, only=j["case"], show=True)
            if err:
                print(err)
                return 2
            for v in res["violations"]:
                print(json.dumps(v, indent=1)[:20000])
            print("replay: %d violation(s)" % len(res["violations"]))
            return 1 if res["violations"] else 0
        return decide(prop, spec, tier, seed, scale, paths, info, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(prop, spec, tier, seed, scale, paths, info, scratch, t0):
    budget = BUDGET[tier]
    counts, samples, violations, inconclusive = {}, [], [], []
    executed = skipped = distinct = 0
    perpart = {}
    problems = []
    for part in spec["parts"]:
        n = max(1, int(part.cases[tier] * scale))
        res, err = run_part(paths, part, seed, tier, scratch, cases=n, budget=budget * part.share)
        if err:
            print(err)
            return 2
        pre = "" if len(spec["parts"]) == 1 else part.key + "."
        executed += res["executed"]
        skipped += res["skipped"]
        distinct += res["distinct"]
        perpart[part.key] = {"executed": res["executed"], "skipped_for_time": res["skipped"], "wall_s": round(res["wall_s"], 1)}
        for k, v in res["counts"].items():
            counts[pre + k] = v
        samples += res["samples"]
        for v in res["violations"]:
            v["part"] = part
            violations.append(v)
        inconclusive += [dict(i, part=part.key) for i in res["inconclusive"]]
        if any(not ((part.confirm is True and not HARD.match(v["key"])) or TIMING.match(v["key"])) for v in res["violations"]):
            break # the verdict is in
        if not res["violations"]:
            for k, v in part.minimum.items():
                want = v * min(1.0, scale)
                if res["counts"].get(k, 0) < want:
                    problems.append("%s: only %d %s observed, %d expected" % (part.key, res["counts"].get(k, 0), k, want))
    known = [k for k in known_findings() if k["property"] == prop]
    hit, fresh = set(), []
    for v in violations:
        m = [k for k in known if k["key"] == v["key"]]
        if m:
            hit.add(m[0]["key"])
        else:
            fresh.append(v)
    # one representative per key, a handful of keys
    reps, seenkeys = [], set()
    for v in fresh:
        if v["key"] not in seenkeys:
            seenkeys.add(v["key"])
            reps.append(v)
    confirmed = []
    unconfirmed = 0
    # what needs no repetition first; repetitions stop once there is a verdict or their time is used up
    needs = lambda v: (v["part"].confirm is True and not HARD.match(v["key"])) or bool(TIMING.match(v["key"]))
    reps.sort(key=needs)
    tc = time.time()
    for v in reps[:8]:
        if needs(v):
            if confirmed and time.time() - tc > 60:
                continue
            ok = False
            same = [x for x in fresh if x["key"] == v["key"]][:3]
            for x in same:
                for _ in range(2):
                    if time.time() - tc > CONFIRM[tier]:
                        break
                    res, err = run_part(paths, x["part"], seed, tier, scratch, only=x["case"])
                    if not err and res["violations"]:
                        ok = True
                        break
                if ok:
                    v = x
                    break
            if not ok:
                unconfirmed += 1
                inconclusive.append({"case": v["case"], "part": v["part"].key, "why": "violation not repeated alone: %s %s" % (v["key"], v["msg"][:500])})
                continue
        confirmed.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rc = 0
    for v in confirmed:
        rp = os.path.join(VERIF, "replays", "%s-%s-%d-%d-%s.json" % (prop, v["part"].key, seed, v["case"], re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:60]))
        json.dump({"property": prop, "part": v["part"].key, "seed": seed, "tier": tier, "case": v["case"], "key": v["key"], "message": v["msg"], "detail": v.get("detail"),
                   "replay": "python3 /verif/bin/check.py %s --replay %s" % (prop, rp)}, open(rp, "w"), indent=1)
        print("%s: %s" % (v["key"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    if rc == 0:
        bad = len(inconclusive)
        if executed == 0 or bad > max(3, 0.05 * executed):
            problems.append("%d of %d cases gave no verdict: %s" % (bad, executed, json.dumps(inconclusive[:3])[:1500]))
        if unconfirmed:
            print("note: %d violation kind(s) did not repeat when run alone" % unconfirmed)
        if problems:
            print("NO VERDICT: " + "; ".join(problems))
            rc = 2
    cov = {"evaluations": executed, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples[:5] or ["none"],
           "monitor_counts": counts, "parts": perpart, "cases_skipped_for_time": skipped, "inconclusive": inconclusive[:10], "inconclusive_count": len(inconclusive),
           "build": info}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec.get("assumptions", []) + ASSUME,
          "wall_s": round(time.time() - t0, 1), "violations": len(confirmed)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d violation(s), %.0f s" % (prop, executed, distinct, len(confirmed), time.time() - t0))
    return rc

ASSUME = ["behaviour is judged on the executions observed in this run only", "the compiler's sanitizers and the reference semantics in /verif/harness are trusted"]

if __name__ == "__main__":
    sys.exit(main())
