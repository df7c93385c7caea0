// C15, C16, C17, C19 in process: cache files, refreshes, faults in files, summaries (volume; the same properties also run over HTTP).
#include "checks.hpp"
#include "common.hpp"
#include "faults.hpp"
#include "http.hpp"
#include "live.hpp"
#include "sut.hpp"
#include <algorithm>
#include <unistd.h>

using nlohmann::json;
using namespace m;
using namespace cc;

namespace cc {
Query anyQuery(Case& c, const Dataset& d) {
  Query q = makeQuery(c, d, c.rng.chance(0.35));
  if (q.kind == Query::ROUTE && c.rng.chance(0.25)) q.kind = Query::SUMMARY;
  if (q.kind != Query::ACCESS && c.rng.chance(0.3)) q.alternatives = true;
  return q;
}

static void evolveScenarios(Case& c, Dataset& d) {
  Rng& r = c.rng;
  for (auto& s : d.scenarios) {
    if (r.chance(0.3)) continue;
    std::vector<int> sv;
    for (size_t i = 0; i < d.services.size(); i++) if (r.chance(0.6)) sv.push_back(i);
    if (r.chance(0.7)) s.services = sv;
    auto some = [&](std::vector<int>& v, size_t n, double p) { if (!r.chance(p)) return; v.clear(); for (size_t i = 0; i < n; i++) if (r.chance(0.35)) v.push_back(i); };
    some(s.onlyLines, d.lines.size(), 0.25);
    some(s.exceptLines, d.lines.size(), 0.4);
    some(s.onlyAgencies, d.agencies.size(), 0.2);
    some(s.exceptAgencies, d.agencies.size(), 0.3);
    if (r.chance(0.2)) s.exceptModes = {d.lines[r.range(0, d.lines.size() - 1)].mode};
    if (r.chance(0.1)) s.uuid = uuidFrom(r);
  }
  if (r.chance(0.2) && d.scenarios.size() > 1) d.scenarios.erase(d.scenarios.begin() + r.range(0, d.scenarios.size() - 1));
  if (r.chance(0.2)) { Scenario s = d.scenarios[0]; s.uuid = uuidFrom(r); d.scenarios.push_back(s); }
  if (r.chance(0.15) && d.scenarios.size() > 1) std::swap(d.scenarios[0].uuid, d.scenarios[1].uuid);
}
static void evolveSchedules(Case& c, Dataset& d) {
  Rng& r = c.rng;
  std::vector<Trip> out;
  const int mode = r.range(0, 9);
  const int shiftAll = r.range(-900, 900);
  const int killLine = r.chance(0.2) ? (int)r.range(0, d.lines.size() - 1) : -1;
  for (auto t : d.trips) {
    if (d.paths[t.path].line == killLine) continue;
    auto shift = [&](int by) { if (t.arr[0] + by < 0 || t.dep[0] + by < 0 || t.arr.back() + by >= DAY32) return; for (auto& x : t.arr) x += by; for (auto& x : t.dep) x += by; };
    if (mode == 0) shift(shiftAll);
    else {
      if (r.chance(0.2)) continue;
      if (r.chance(0.5)) shift(r.range(-1200, 1200));
      if (r.chance(0.15)) t.service = r.range(0, d.services.size() - 1);
      if (r.chance(0.15)) t.board[r.range(0, t.board.size() - 1)] ^= 1;
      if (r.chance(0.15)) t.unboard[r.range(0, t.unboard.size() - 1)] ^= 1;
      if (r.chance(0.2)) { Trip u = t; u.uuid = uuidFrom(r); out.push_back(u); shift(r.range(-2000, 2000)); }
      if (r.chance(0.1)) t.uuid = uuidFrom(r);
    }
    out.push_back(t);
  }
  if (r.chance(0.3) && out.size() > 1) std::swap(out[0].uuid, out[out.size() - 1].uuid); // the same identifiers on other trips
  if (out.empty() && !r.chance(0.1)) return;
  d.trips = out;
}

Dataset evolve(Case& c, const Dataset& old, const std::string& kind, const gen::Cfg& k) {
  Dataset d = old;
  if (kind == "schedules" || kind == "both") evolveSchedules(c, d);
  if (kind == "scenarios" || kind == "both") evolveScenarios(c, d);
  if (kind == "all") {
    if (c.rng.chance(0.3)) { evolveSchedules(c, d); evolveScenarios(c, d); return d; }
    d = gen::dataset(c.rng, k);
    auto keep = [&](auto& nw, const auto& od) { if (c.rng.chance(0.6)) for (size_t i = 0; i < nw.size() && i < od.size(); i++) nw[i].uuid = od[i].uuid; };
    keep(d.nodes, old.nodes); keep(d.agencies, old.agencies); keep(d.services, old.services); keep(d.lines, old.lines); keep(d.paths, old.paths); keep(d.trips, old.trips); keep(d.scenarios, old.scenarios);
    for (size_t i = 0; i < d.places.size() && i < old.places.size(); i++) { d.places[i].latE6 = old.places[i].latE6; d.places[i].lonE6 = old.places[i].lonE6; }
  }
  return d;
}

std::string cripple(Case& c, Dataset& d) {
  switch (c.rng.range(0, 2)) {
    case 0: d.trips.clear(); return "SCHEDULES";
    case 1: d.scenarios.clear(); return "SCENARIOS";
    default: d.trips.clear(); d.paths.clear(); return "PATHS";
  }
}
} // namespace cc

namespace {

// What the HTTP handlers answer: data errors first
json answer(Sut& s, const Query& q, const Dataset& asked) {
  if (s.status() != "READY") return {{"status", "data_error"}, {"missing", s.status()}};
  return canonical(s.askParams(q.kind, q.params(asked)));
}

// C16 -----------------------------------------------------------------------------------------
void caseC16(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.rich = true;
  k.nullDistances = c.rng.chance(0.4);
  if (c.rng.chance(0.5)) k.spread = true;
  Dataset d = gen::dataset(c.rng, k);
  SutOptions o;
  o.files = true;
  o.dir = c.scratchDir();
  o.cacheAll = c.rng.chance(0.5);
  Sut s(d, o);
  c.count("data_sets");
  c.count("trips_encoded", d.trips.size());
  c.count("stops_encoded", d.nodes.size());
  if (s.status() != "READY") { c.violation("not-ready", "complete files load as " + s.status(), {{"dataset", toJson(d)}}); return; }
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, d, c.rng.chance(0.45));
    if (skipZero(d, q)) continue;
    bool admitsAny = false;
    for (char x : d.admitted(q.scenario)) if (x) admitsAny = true;
    if (!admitsAny && d.scenarios[q.scenario].services.empty()) continue;
    c.count("answers");
    json r = s.ask(q);
    checkAgainstReference(c, d, q, r);
    if (r.value("status", "") == "success") {
      c.count("successes");
      c.seen(caseHash(d, q));
      if (c.samples.empty()) c.sample({{"query", q.url(d)}, {"files", faults::list(o.dir).size()}, {"trips", d.trips.size()}});
    }
  }
}

// C15 -----------------------------------------------------------------------------------------
void caseC15(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.euclidP = 0;
  k.emptyScenario = c.rng.chance(0.2);
  Dataset d = gen::dataset(c.rng, k);
  if (c.rng.chance(0.1)) cripple(c, d);
  const std::string dir = c.scratchDir();
  writeCache(d, dir);
  writeAux(d, dir);
  SutOptions o;
  o.files = o.keepFiles = true;
  o.dir = dir;
  o.cacheAll = c.rng.chance(0.5);
  Sut live(d, o);
  std::string hist;
  const int rounds = c.rng.range(1, 3);
  for (int round = 0; round < rounds; round++) {
    std::vector<Query> before;
    if (!d.trips.empty() && !d.scenarios.empty()) {
      for (int i = 0; i < 5; i++) before.push_back(anyQuery(c, d));
      for (auto& q : before) if (c.rng.chance(0.8)) answer(live, q, d);
    }
    const std::string kind = c.rng.pick(std::vector<std::string>{"all", "schedules", "schedules", "both"});
    Dataset nd = d.trips.empty() || d.scenarios.empty() || d.paths.empty() ? gen::dataset(c.rng, k) : evolve(c, d, kind, k);
    std::string did = d.trips.empty() || d.scenarios.empty() || d.paths.empty() ? "all" : kind;
    if (did == "all" && c.rng.chance(0.1)) cripple(c, nd);
    std::vector<std::string> names{"all"};
    if (did == "schedules") { writeSchedules(nd, dir); names = {"schedules"}; }
    else if (did == "both") {
      writeSchedules(nd, dir);
      writeScenarios(nd, dir);
      names = c.rng.chance(0.5) ? std::vector<std::string>{"schedules", "scenarios"} : std::vector<std::string>{"scenarios", "schedules"};
    } else {
      if (c.rng.chance(0.5)) { faults::removeTree(dir); }
      writeCache(nd, dir);
      writeAux(nd, dir);
    }
    std::string fault;
    if (did == "all" && c.rng.chance(0.15)) { fault = faults::inject(c.rng, nd, dir).what; c.count("refreshes_with_faulty_files"); }
    live.setData(nd);
    try { live.refresh(names); } catch (std::exception& e) { c.violation("refresh-exception", std::string("refresh of ") + did + " threw " + e.what(), {{"dataset", toJson(nd)}}); return; }
    hist += did + (o.cacheAll ? "* " : " ") + (fault.empty() ? "" : "(" + fault + ") ");
    c.count("refreshes_" + did);
    Sut fresh(nd, o);
    if (live.status() != fresh.status()) { c.violation("status-after-refresh", "after refreshing " + hist + "the data status is " + live.status() + ", freshly started " + fresh.status(), {{"old", toJson(d)}, {"new", toJson(nd)}}); return; }
    std::vector<std::pair<Query, const Dataset*>> qs;
    for (auto& q : before) qs.push_back({q, &d});
    if (!nd.trips.empty() && !nd.scenarios.empty()) for (int i = 0; i < 6; i++) qs.push_back({anyQuery(c, nd), &nd});
    for (auto& q : qs) {
      json a = answer(live, q.first, *q.second), b = answer(fresh, q.first, *q.second);
      c.count("comparisons");
      c.count("answers_" + b.value("status", std::string("?")));
      if (b.value("status", "") == "success") c.seen(caseHash(*q.second, q.first) ^ fingerprint(nd) ^ fnv(hist));
      if (a.contains("__exception")) { c.violation("exception-after-refresh", "query ended with " + a.dump().substr(0, 200), {{"query", q.first.url(*q.second)}, {"old", toJson(d)}, {"new", toJson(nd)}}); return; }
      if (a != b) {
        c.violation("stale-answer", "after refreshing " + hist + "the answer differs from a fresh start: " + json::diff(b, a).dump().substr(0, 400), {{"query", q.first.url(*q.second)}, {"fresh", b}, {"refreshed", a}, {"old", toJson(d)}, {"new", toJson(nd)}});
        return;
      }
    }
    if (!fault.empty()) break;
    d = nd;
  }
  c.sample({{"refreshes", hist}});
}

// C17 -----------------------------------------------------------------------------------------
void judgeFaulty(Case& c, Sut& s, const Dataset& d, const faults::Fault& f, const std::string& when, const json& ctx) {
  const std::string st = s.status();
  c.count("status_" + st);
  if (f.onlyDeletions && !f.deleted.empty()) {
    if (st == "READY" || st == "ERROR" || !f.deleted.count(st)) { c.violation("missing-kind-" + st, "status " + st + " after " + f.what + when, ctx); return; }
    c.count("missing_kind_named");
  }
  if (!f.mayLack(st)) { c.violation("wrong-missing-kind-" + st, "reports missing " + st + ", whose files are intact, after " + f.what + when, ctx); return; }
  if (st != "READY") return; // that is a data_error answer to everything
  // With only schedule files gone, the rest must be served as encoded
  Dataset ref = d;
  if (!f.lostLines.empty()) {
    std::vector<char> keep;
    for (auto& t : d.trips) keep.push_back(!f.lostLines.count(d.paths[t.path].line));
    ref = withoutTrips(d, keep);
  }
  const bool exact = f.onlyScheduleDeletions || f.onlyAux || f.onlyForeign;
  if (f.onlyForeign) c.count("served_beside_unknown_records");
  for (int i = 0; i < 6; i++) {
    Query q = exact ? makeQuery(c, d, c.rng.chance(0.4)) : anyQuery(c, d);
    if (exact && (skipZero(d, q) || d.scenarios[q.scenario].services.empty())) continue;
    json r = s.askParams(q.kind, q.params(d));
    c.count("answers");
    if (r.contains("__paramError") && r["__scenario"] == true && !exact) { c.count("scenario_lost"); continue; }
    json x = ctx;
    x["query"] = q.url(d);
    x["answer"] = r;
    if (r.contains("__exception") || r.contains("__null") || r.contains("__paramError")) { c.violation("exception-on-query", "valid request " + q.url(d) + " ends with " + r.dump().substr(0, 300) + " after " + f.what + when, x); return; }
    if (r.value("status", "") == "success") c.count("served");
    if (exact) { checkAgainstReference(c, ref, q, r); c.count("served_as_encoded"); }
  }
}

void caseC17(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.euclidP = 0;
  k.rich = c.rng.chance(0.3);
  Dataset d = gen::dataset(c.rng, k);
  const std::string master = c.scratchDir(), dir = c.scratchDir();
  writeCache(d, master);
  writeAux(d, master);
  for (int i = 0; i < 4; i++) {
    faults::removeTree(dir);
    faults::copyTree(master, dir);
    SutOptions o;
    o.files = o.keepFiles = true;
    o.dir = dir;
    o.cacheAll = c.rng.chance(0.3);
    const bool later = c.rng.chance(0.4);
    std::unique_ptr<Sut> s;
    if (later) {
      s = std::make_unique<Sut>(d, o);
      for (int j = 0; j < 3; j++) { Query q = anyQuery(c, d); s->askParams(q.kind, q.params(d)); }
    }
    faults::Fault f = faults::inject(c.rng, d, dir);
    if (getenv("VERIF_TRACE")) fprintf(stderr, "fault: %s%s\n", f.what.c_str(), later ? " (refresh)" : "");
    c.count("faults");
    c.seen(fnv(f.what) ^ fingerprint(d));
    json ctx = {{"fault", f.what}, {"when", later ? "refresh" : "start"}, {"dataset", toJson(d)}};
    c.count(later ? "faults_at_refresh" : "faults_at_start");
    try {
      if (later) s->refresh({"all"});
      else s = std::make_unique<Sut>(d, o);
    } catch (std::exception& e) {
      c.violation("exception", std::string("loading threw ") + std::string(e.what()).substr(0, 300) + " after " + f.what, ctx);
      continue;
    } catch (...) {
      c.violation("exception", "loading threw after " + f.what, ctx);
      continue;
    }
    judgeFaulty(c, *s, d, f, later ? " (refresh)" : " (start)", ctx);
    if (c.samples.size() < 2) c.sample({{"fault", f.what}, {"status", s->status()}});
    if (c.rng.chance(0.4)) { // good files again
      faults::removeTree(dir);
      faults::copyTree(master, dir);
      try { s->refresh({"all"}); } catch (...) { c.violation("exception", "refresh with good files threw after " + f.what, ctx); continue; }
      if (s->status() != "READY") { c.violation("not-restored", "good files again, status " + s->status() + " after " + f.what, ctx); continue; }
      for (int j = 0; j < 4; j++) {
        Query q = makeQuery(c, d, c.rng.chance(0.4));
        if (skipZero(d, q) || d.scenarios[q.scenario].services.empty()) continue;
        checkAgainstReference(c, d, q, s->ask(q));
        c.count("answers_after_restore");
      }
    }
  }
}

// C19 -----------------------------------------------------------------------------------------
void caseC19(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.rich = c.rng.chance(0.5);
  k.emptyScenario = c.rng.chance(0.2);
  Dataset d = gen::dataset(c.rng, k);
  SutOptions o;
  o.cacheAll = c.rng.chance(0.5);
  if (c.rng.chance(0.2)) { o.files = true; o.dir = c.scratchDir(); }
  Sut s(d, o);
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, d, false);
    q.alternatives = c.rng.chance(0.6);
    if (q.alternatives && c.rng.chance(0.5)) q.maxTravel.reset();
    json a = s.ask(q);
    Query q2 = q;
    q2.kind = Query::SUMMARY;
    json b = s.ask(q2);
    if (a.contains("__exception") || a.contains("__null")) { c.violation("exception", "route ends with " + a.dump().substr(0, 200), detail(d, q, a)); continue; }
    if (a.contains("__paramError")) { if (a != b) c.violation("error-differs", "route " + a.dump() + " summary " + b.dump().substr(0, 200), detail(d, q2, b)); continue; }
    if (b.contains("__exception") || b.contains("__null") || b.contains("__paramError")) { c.violation("summary-exception", "summary ends with " + b.dump().substr(0, 200) + " while route answers", detail(d, q2, b)); continue; }
    checkSummary(c, d, q, a, b);
    if (a["status"] == "success" && c.samples.empty() && b["result"]["lines"].size() > 1) c.sample({{"query", q2.url(d)}, {"nbRoutes", b["result"]["nbRoutes"]}, {"lines", b["result"]["lines"].size()}});
  }
}
} // namespace

bool dataCheck(const std::string& prop, RunSpec& s) {
  s.prop = prop;
  s.batch = 20;
  if (prop == "C15calc") s.fn = caseC15;
  else if (prop == "C16calc") s.fn = caseC16;
  else if (prop == "C17calc") s.fn = caseC17;
  else if (prop == "C19calc") s.fn = caseC19;
  else return false;
  return true;
}
