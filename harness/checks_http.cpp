// C13, C15-C20 on the real server binary over loopback HTTP, with a walking-router stub and cache files on disk.
#include "checks.hpp"
#include "common.hpp"
#include "faults.hpp"
#include "live.hpp"
#include "sut.hpp"
#include <algorithm>
#include <cstring>
#include <ctime>
#include <fstream>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>

using nlohmann::json;
using namespace m;
using namespace cc;

namespace {

gen::Cfg webCfg(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.completeAcc = true;
  k.euclidP = 0;
  k.spread = c.rng.chance(0.5);
  k.rich = c.rng.chance(0.4);
  return k;
}
json seenAs(const Ans& a) { return {{"http", a.http}, {"got", a.got}, {"body", canonical(a.j)}}; }
bool servable(const Dataset& d, const Query& q) { return !skipZero(d, q) && !d.scenarios[q.scenario].services.empty(); }

struct Web {
  Dataset d;
  std::string dir;
  std::unique_ptr<Live> live;
  bool cacheAll;
  int threads;
};
void stubFor(Live& l, const Dataset& d) {
  l.stub.setData(d);
  if (!l.stub.start()) { fprintf(stderr, "the router stub cannot listen\n"); _exit(3); }
}
std::unique_ptr<Web> web(Case& c, const gen::Cfg& k) {
  auto w = std::make_unique<Web>();
  w->d = gen::dataset(c.rng, k);
  w->dir = c.scratchDir();
  writeCache(w->d, w->dir);
  writeAux(w->d, w->dir);
  w->live = std::make_unique<Live>(c);
  stubFor(*w->live, w->d);
  w->live->euclid = w->d.euclid;
  if (w->d.euclid) c.count("with_euclidean_filter");
  w->cacheAll = c.rng.chance(0.5);
  w->threads = c.rng.range(1, 4);
  w->live->context = {{"dataset", toJson(w->d)}, {"cacheAll", w->cacheAll}, {"threads", w->threads}};
  return w;
}

// ---------------------------------------------------------------------------------------------
// Requests with a known classification
struct Req {
  int kind = 0;
  std::vector<std::pair<std::string, std::string>> p;
  std::set<std::string> codes; // non-empty: the request is defective, any of these names a defect it has
  bool tolerant = false;       // odd but not clearly defective: any documented answer
  std::string what;
};
std::string enc(const std::string& s, bool all = false) {
  std::string r;
  for (unsigned char ch : s) {
    if (!all && (isalnum(ch) || strchr("-_.~,:", ch))) r += ch;
    else { char b[4]; snprintf(b, sizeof b, "%%%02X", ch); r += b; }
  }
  return r;
}
std::string target(Rng& r, const Req& q, bool odd = false) {
  static const char* ep[] = {"/v2/route", "/v2/summary", "/v2/accessibility"};
  std::string s = ep[q.kind];
  if (odd && r.chance(0.3)) s += "/";
  char sep = '?';
  for (auto& p : q.p) {
    const bool all = odd && r.chance(0.2);
    s += sep + enc(p.first) + "=" + enc(p.second, all);
    sep = '&';
  }
  return s;
}
std::string* val(Req& q, const std::string& k) {
  for (auto& p : q.p) if (p.first == k) return &p.second;
  return nullptr;
}
void setVal(Req& q, const std::string& k, const std::string& v) {
  if (auto* x = val(q, k)) *x = v;
  else q.p.push_back({k, v});
}
// One definite defect
void breakOne(Case& c, const Dataset& d, Req& q) {
  Rng& r = c.rng;
  std::vector<std::string> coords = q.kind == Query::ACCESS ? std::vector<std::string>{"place"} : std::vector<std::string>{"origin", "destination"};
  auto up = [](std::string s) { for (auto& ch : s) ch = toupper(ch); return s; };
  auto drop = [&](const std::string& k) { q.p.erase(std::remove_if(q.p.begin(), q.p.end(), [&](auto& p) { return p.first == k; }), q.p.end()); };
  switch (r.range(0, 7)) {
    case 0: { // required parameter missing
      std::vector<std::string> all = coords;
      all.push_back("scenario_id");
      all.push_back("time_of_trip");
      const std::string k = r.pick(all);
      if (!val(q, k)) return;
      drop(k);
      q.codes.insert(k == "scenario_id" ? "MISSING_PARAM_SCENARIO" : k == "time_of_trip" ? "MISSING_PARAM_TIME_OF_TRIP" : "MISSING_PARAM_" + up(k));
      q.what += " without " + k;
      return;
    }
    case 1: case 2: { // malformed coordinates
      static const std::vector<std::string> v{"", "abc", "1", "1,2,3", ",", "1,", ",2", "abc,def", "nan,45.5", "-73.6,nan", "inf,45.5", "-73.6,-inf", "-73.6x,45.5", "-73.6,45.5x", "1e999,0", "0,1e999", "-73.6;45.5", "-73.6 45.5", "--73,45", "-73.6,45.5,", ",,", "1,abc", "-73..6,45.5", "{},[]", "\"-73.6\",\"45.5\""};
      const std::string k = r.pick(coords), x = r.pick(v);
      setVal(q, k, x);
      q.codes.insert("INVALID_" + up(k));
      if (x.empty()) q.codes.insert("MISSING_PARAM_" + up(k));
      q.what += " " + k + "='" + x + "'";
      return;
    }
    case 3: { // unknown, malformed or empty scenario id
      if (r.chance(0.5)) { setVal(q, "scenario_id", uuidFrom(r)); q.codes.insert("MISSING_PARAM_SCENARIO"); q.what += " unknown scenario"; return; }
      std::string good = d.scenarios[0].uuid;
      const std::vector<std::string> v{"", "abc", "1234", good.substr(0, 35), good + "0", good.substr(0, 8), "zzzzzzzz-zzzz-zzzz-zzzz-zzzzzzzzzzzz", std::string(300, 'a'), "-", "null", good + good, good.substr(0, 10) + "x" + good.substr(11)};
      const std::string x = r.pick(v);
      setVal(q, "scenario_id", x);
      q.codes.insert("MISSING_PARAM_SCENARIO");
      q.codes.insert("PARAM_ERROR_UNKNOWN");
      q.what += " scenario_id='" + x.substr(0, 40) + "'";
      return;
    }
    case 4: { // scenario without services
      for (auto& s : d.scenarios) if (s.services.empty()) { setVal(q, "scenario_id", s.uuid); q.codes.insert("EMPTY_SCENARIO"); q.what += " empty scenario"; return; }
      return;
    }
    case 5: case 6: { // numbers that are not
      static const std::vector<std::string> ks{"time_of_trip", "time_of_trip", "min_waiting_time", "max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"};
      static const std::vector<std::string> v{"", "abc", "12abc", "--", "nan", "-", "1 2", "12:30", "null", "true", "1,000", "12e", "+", "6OO", "300;"};
      const std::string k = r.pick(ks), x = r.pick(v);
      setVal(q, k, x);
      q.codes.insert("INVALID_NUMERICAL_DATA");
      if (x.empty() && k == "time_of_trip") q.codes.insert("MISSING_PARAM_TIME_OF_TRIP");
      q.what += " " + k + "='" + x + "'";
      return;
    }
    default: // negative time
      setVal(q, "time_of_trip", r.pick(std::vector<std::string>{"-1", "-2", "-3600", "-2147483648"}));
      q.codes.insert("MISSING_PARAM_TIME_OF_TRIP");
      q.codes.insert("INVALID_NUMERICAL_DATA");
      q.what += " negative time";
      return;
  }
}
Req reqOf(const Dataset& d, const Query& q) {
  Req x;
  x.kind = q.kind;
  x.p = q.params(d);
  return x;
}
Req badRequest(Case& c, const Dataset& d, const Query& q) {
  Req x;
  do {
    x = reqOf(d, q);
    const int n = c.rng.chance(0.7) ? 1 : c.rng.range(2, 3);
    // a later defect may overwrite an earlier one in the same parameter: keep only what holds in the end
    std::set<std::string> touched;
    for (int i = 0; i < n; i++) {
      Req before = x;
      breakOne(c, d, x);
      std::string t;
      for (auto& p : x.p) { bool same = false; for (auto& o : before.p) if (o == p) same = true; if (!same) t = p.first; }
      for (auto& p : before.p) if (!val(x, p.first)) t = p.first;
      if (!t.empty() && !touched.insert(t).second) { x = before; }
    }
  } while (x.codes.empty());
  if (c.rng.chance(0.2)) for (size_t i = x.p.size(); i > 1; i--) std::swap(x.p[i - 1], x.p[c.rng.range(0, i - 1)]);
  return x;
}
Req oddRequest(Case& c, const Dataset& d, const Query& q) {
  Rng& r = c.rng;
  Req x = reqOf(d, q);
  x.tolerant = true;
  static const std::vector<std::string> ks{"time_of_trip", "min_waiting_time", "max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time"};
  switch (r.range(0, 6)) {
    case 0: { auto v = r.pick(std::vector<std::string>{"99999999999", "-99999999999", "2147483648", "-2147483649", "12.5", " 12", "12 ", "+12", "0x10", "1e3", "00012", "12.0", std::string(400, '9')}); auto k = r.pick(ks); setVal(x, k, v); x.what = k + "=" + v.substr(0, 30); break; }
    case 1: { auto k = q.kind == Query::ACCESS ? std::string("place") : std::string(r.chance(0.5) ? "origin" : "destination"); auto v = r.pick(std::vector<std::string>{"200,100", "-73.6,91", "181,0", "0,0", "180,90", "-180,-90", "1e5,1e5", "1e300,1e300", "-1e300,5", "1e-300,0", "+1,2", " 1,2", "1, 2", "0x10,5", "1 ,2", "-0,0"}); setVal(x, k, v); x.what = k + "=" + v; break; }
    case 2: { auto v = r.pick(std::vector<std::string>{"0", "1", "2", "-1", "abc", "", "true", "10"}); setVal(x, "time_type", v); x.what = "time_type=" + v; break; }
    case 3: { auto v = r.pick(std::vector<std::string>{"0", "false", "TRUE", "yes", "", "2", "abc"}); setVal(x, "alternatives", v); x.what = "alternatives=" + v; break; }
    case 4: { auto u = d.scenarios[q.scenario].uuid; std::string up = u, hex; for (auto& ch : up) ch = toupper(ch); for (auto ch : u) if (ch != '-') hex += ch; auto v = r.pick(std::vector<std::string>{up, "{" + u + "}", hex, "{" + hex + "}", " " + u, u + " "}); setVal(x, "scenario_id", v); x.what = "scenario_id=" + v; break; }
    case 5: { auto& p = x.p[r.range(0, x.p.size() - 1)]; std::string k = p.first; x.p.push_back({k, r.pick(std::vector<std::string>{"0", "1", "abc", "", "28800", coord(d.places[0])})}); x.what = "duplicate " + k; break; }
    default: { std::string bytes; for (int i = 0, n = r.range(1, 40); i < n; i++) bytes += (char)r.range(1, 255); auto& p = x.p[r.range(0, x.p.size() - 1)]; p.second = bytes; x.what = "random bytes in " + p.first; break; }
  }
  return x;
}
void judgeBad(Case& c, Live& l, const Req& x, const std::string& t, const Ans& a) {
  if (!a.got) return;
  if (a.status() == "data_error") return; // judged by the caller
  const std::string code = a.j.contains("errorCode") && a.j["errorCode"].is_string() ? a.j["errorCode"].get<std::string>() : "";
  if (a.status() != "query_error") c.violation("defect-accepted", "request with" + x.what + " answered " + a.status() + " (HTTP " + std::to_string(a.http) + ")", {{"target", t}, {"got", a.raw.substr(0, 2000)}, {"context", l.context}});
  else if (!x.codes.count(code)) c.violation("wrong-code-" + code, "request with" + x.what + " answered " + code, {{"target", t}, {"got", a.raw}, {"expected", x.codes}, {"context", l.context}});
  else c.count("defects_classified");
}

// C13 -----------------------------------------------------------------------------------------
void webC13(Case& c) {
  gen::Cfg k = webCfg(c);
  k.euclidP = 0.1;
  k.emptyScenario = c.rng.chance(0.3);
  auto w = web(c, k);
  Live& l = *w->live;
  struct Item { Query q; json base; };
  std::vector<Item> pool;
  for (int i = 0; i < 5; i++) {
    Item it;
    it.q = i && c.rng.chance(0.6) ? relatedQuery(c, w->d, c.rng.pick(pool).q) : anyQuery(c, w->d);
    if (!servable(w->d, it.q)) it.q = anyQuery(c, w->d);
    if (!l.up(w->dir, 1, c.rng.chance(0.5))) return;
    Ans a = l.ask(w->d, it.q);
    if (!a.got) return;
    it.base = seenAs(a);
    l.down();
    pool.push_back(it);
  }
  c.count("fresh_servers", pool.size());
  static const std::vector<std::string> noise{"/", "/nothing", "/v2/unknown", "/v2/route", "/v2/summary?", "/v2/accessibility?x=y", "/updateCache", "/updateCache?names=bogus",
    "/updateCache?names=schedules", "/updateCache?names=scenarios", "/updateCache?names=all", "/updateCache?names=agencies", "/updateCache?names=lines", "/updateCache?names=paths", "/updateCache?names=nodes",
    "/updateCache?names=services", "/updateCache?names=data_sources,persons,od_trips", "/updateCache?names=agencies,lines", "/updateCache?names=scenarios,schedules", "/updateCache?names=bogus,paths", "/exit?x=1"};
  for (int all = 0; all < 2; all++) {
    l.history.clear();
    if (!l.up(w->dir, w->threads, all)) return;
    const int n = c.thorough ? 60 : 25;
    for (int i = 0; i < n; i++) {
      const double x = c.rng.next() % 1000 / 1000.0;
      if (x < 0.12) { Req b = badRequest(c, w->d, c.rng.pick(pool).q); l.api(target(c.rng, b), b.kind); c.count("invalid_requests"); }
      else if (x < 0.22) { l.get(c.rng.pick(noise)); c.count("other_requests"); }
      else if (x < 0.35) { Query o = c.rng.chance(0.5) ? relatedQuery(c, w->d, c.rng.pick(pool).q) : anyQuery(c, w->d); l.ask(w->d, o); c.count("other_queries"); }
      else {
        const Item& it = c.rng.pick(pool);
        Ans a = l.ask(w->d, it.q);
        if (l.dead()) return;
        json s = seenAs(a);
        c.count("comparisons");
        if (s != it.base) {
          c.violation("history-dependent", "request " + it.q.url(w->d) + " is answered differently after other requests: " + json::diff(it.base, s).dump().substr(0, 400), {{"history", l.history}, {"fresh", it.base}, {"later", s}, {"context", l.context}});
          return;
        }
        if (a.status() == "success") c.seen(caseHash(w->d, it.q) ^ fnv(l.history));
      }
      if (l.dead()) return;
    }
    c.sample({{"history", l.history.substr(0, 600)}});
    l.down();
  }
}

// C15 -----------------------------------------------------------------------------------------
void webC15(Case& c) {
  gen::Cfg k = webCfg(c);
  k.emptyScenario = c.rng.chance(0.2);
  auto w = web(c, k);
  Live& l = *w->live;
  if (c.rng.chance(0.15)) { cripple(c, w->d); faults::removeTree(w->dir); mkdir(w->dir.c_str(), 0755); writeCache(w->d, w->dir); writeAux(w->d, w->dir); }
  if (!l.up(w->dir, w->threads, w->cacheAll)) return;
  std::string hist;
  Dataset d = w->d;
  auto incomplete = [](const Dataset& x) { return x.trips.empty() || x.scenarios.empty() || x.paths.empty(); };
  const int rounds = c.rng.range(1, 3);
  for (int round = 0; round < rounds; round++) {
    std::vector<Query> before;
    if (!d.trips.empty() && !d.scenarios.empty()) for (int i = 0; i < 5; i++) before.push_back(anyQuery(c, d));
    for (auto& q : before) if (c.rng.chance(0.8)) l.ask(d, q);
    const std::string kind = incomplete(d) ? "all" : c.rng.pick(std::vector<std::string>{"all", "schedules", "schedules", "both"});
    Dataset nd = incomplete(d) ? gen::dataset(c.rng, k) : evolve(c, d, kind, k);
    if (kind == "all" && c.rng.chance(0.12)) cripple(c, nd);
    std::vector<std::string> cmds;
    static const std::vector<std::string> alias{"names", "caches", "cache_names", "name", "cache", "cache_name"};
    if (kind == "schedules") { writeSchedules(nd, w->dir); cmds = {"schedules"}; }
    else if (kind == "both") {
      writeSchedules(nd, w->dir);
      writeScenarios(nd, w->dir);
      switch (c.rng.range(0, 3)) {
        case 0: cmds = {"schedules,scenarios"}; break;
        case 1: cmds = {"scenarios,schedules"}; break;
        case 2: cmds = {"schedules", "scenarios"}; break;
        default: cmds = {"scenarios", "schedules"};
      }
    } else {
      if (c.rng.chance(0.5)) { faults::removeTree(w->dir); mkdir(w->dir.c_str(), 0755); }
      writeCache(nd, w->dir);
      writeAux(nd, w->dir);
      cmds = {"all"};
      if (c.rng.chance(0.1)) { auto f = faults::inject(c.rng, nd, w->dir); hist += "(" + f.what + ") "; c.count("refreshes_with_faulty_files"); }
    }
    l.stub.setData(nd);
    for (auto& cmd : cmds) {
      Ans a = l.get("/updateCache?" + c.rng.pick(alias) + "=" + cmd);
      if (l.dead()) return;
      if (a.got && a.status() != "success") c.violation("refresh-refused", "/updateCache of " + cmd + " answers " + a.raw, {{"history", l.history}});
    }
    hist += kind + (w->cacheAll ? "* " : " ");
    c.count("refreshes_" + kind);
    std::vector<std::pair<Query, const Dataset*>> qs;
    for (auto& q : before) qs.push_back({q, &d});
    if (!nd.trips.empty() && !nd.scenarios.empty()) for (int i = 0; i < 8; i++) qs.push_back({anyQuery(c, nd), &nd});
    std::vector<json> got;
    for (auto& q : qs) { got.push_back(seenAs(l.ask(*q.second, q.first))); if (l.dead()) return; }
    Live f(c);
    f.context = {{"dataset", toJson(nd)}, {"server", "fresh"}};
    stubFor(f, nd);
    if (!f.up(w->dir, 1, c.rng.chance(0.5))) return;
    for (size_t i = 0; i < qs.size(); i++) {
      json b = seenAs(f.ask(*qs[i].second, qs[i].first));
      if (f.dead()) return;
      c.count("comparisons");
      c.count("answers_" + b["body"].value("status", std::string("?")));
      if (b["body"].value("status", "") == "success") c.seen(caseHash(*qs[i].second, qs[i].first) ^ fingerprint(nd) ^ fnv(hist));
      if (got[i] != b) {
        c.violation("stale-answer", "after refreshing " + hist + "the answer differs from a freshly started server: " + json::diff(b, got[i]).dump().substr(0, 400), {{"query", qs[i].first.url(*qs[i].second)}, {"fresh", b}, {"refreshed", got[i]}, {"history", l.history}, {"old", toJson(d)}, {"new", toJson(nd)}, {"cacheAll", w->cacheAll}});
        return;
      }
    }
    if (hist.find('(') != std::string::npos) break;
    d = nd;
    l.context["dataset"] = toJson(nd);
  }
  c.sample({{"refreshes", hist}});
}

// C16 -----------------------------------------------------------------------------------------
void webC16(Case& c) {
  gen::Cfg k = webCfg(c);
  k.rich = true;
  k.spread = c.rng.chance(0.7);
  k.nullDistances = c.rng.chance(0.3);
  auto w = web(c, k);
  Live& l = *w->live;
  if (!l.up(w->dir, w->threads, w->cacheAll)) return;
  c.count("data_sets");
  for (int i = 0; i < (c.thorough ? 60 : 25); i++) {
    Query q = makeQuery(c, w->d, c.rng.chance(0.4));
    if (!servable(w->d, q)) continue;
    Ans a = l.ask(w->d, q);
    if (l.dead()) return;
    if (!a.got) continue;
    c.count("answers");
    checkAgainstReference(c, w->d, q, a.j);
    if (a.status() == "success") { c.count("successes"); c.seen(caseHash(w->d, q)); if (c.samples.empty()) c.sample({{"query", q.url(w->d)}, {"files", faults::list(w->dir).size()}}); }
  }
  if (l.stub.requests() == 0) c.count("no_router_requests");
  c.count("router_requests", l.stub.requests());
}

// C17 -----------------------------------------------------------------------------------------
void judgeFaultyWeb(Case& c, Live& l, const Dataset& d, const faults::Fault& f, const std::string& when) {
  Dataset ref = d;
  if (!f.lostLines.empty()) {
    std::vector<char> keep;
    for (auto& t : d.trips) keep.push_back(!f.lostLines.count(d.paths[t.path].line));
    ref = withoutTrips(d, keep);
  }
  const bool exact = f.onlyScheduleDeletions || f.onlyAux || f.onlyForeign;
  std::string first;
  for (int i = 0; i < 6; i++) {
    Query q = exact ? makeQuery(c, d, c.rng.chance(0.4)) : anyQuery(c, d);
    if (!servable(d, q)) continue;
    Ans a = l.ask(d, q);
    if (l.dead()) return;
    if (!a.got) continue;
    c.count("answers");
    json x = {{"fault", f.what}, {"when", when}, {"query", q.url(d)}, {"got", a.raw.substr(0, 2000)}, {"dataset", toJson(d)}};
    const std::string code = a.j.value("errorCode", std::string());
    const std::string kind = a.status() == "data_error" ? code : "";
    if (i == 0 || first.empty()) first = kind.empty() ? "-" : kind;
    else if ((kind.empty() ? "-" : kind) != first) { c.violation("inconsistent-status", "some requests answer " + first + ", others " + kind + " after " + f.what + when, x); return; }
    if (!kind.empty()) {
      const std::string miss = kind.rfind("MISSING_DATA_", 0) == 0 ? kind.substr(13) : "";
      c.count("data_errors");
      if (f.onlyDeletions && !f.deleted.empty() && !f.deleted.count(miss)) { c.violation("missing-kind-" + kind, "data_error " + kind + " after " + f.what + when, x); return; }
      if (miss.empty() ? f.onlyDeletions : !f.mayLack(miss)) { c.violation("wrong-missing-kind-" + kind, "data_error " + kind + " although those files are intact, after " + f.what + when, x); return; }
      continue;
    }
    if (f.onlyDeletions && !f.deleted.empty()) { c.violation("missing-kind-not-reported", "answers " + a.status() + " after " + f.what + when, x); return; }
    if (a.status() == "query_error") {
      if (!exact && (code == "MISSING_PARAM_SCENARIO" || code == "EMPTY_SCENARIO")) { c.count("scenario_lost"); continue; }
      c.violation("valid-request-refused", "valid request answers " + code + " after " + f.what + when, x);
      return;
    }
    c.count("served");
    if (exact) { checkAgainstReference(c, ref, q, a.j); c.count("served_as_encoded"); }
  }
}
void webC17(Case& c) {
  gen::Cfg k = webCfg(c);
  Dataset d = gen::dataset(c.rng, k);
  const std::string master = c.scratchDir(), dir = c.scratchDir();
  writeCache(d, master);
  writeAux(d, master);
  Live l(c);
  stubFor(l, d);
  for (int i = 0; i < 3; i++) {
    faults::removeTree(dir);
    faults::copyTree(master, dir);
    const bool later = c.rng.chance(0.5), all = c.rng.chance(0.4);
    l.history.clear();
    if (later) {
      if (!l.up(dir, 2, all)) return;
      for (int j = 0; j < 3; j++) l.ask(d, anyQuery(c, d));
      if (l.dead()) return;
    }
    faults::Fault f = faults::inject(c.rng, d, dir);
    l.context = {{"fault", f.what}, {"when", later ? "refresh" : "start"}, {"dataset", toJson(d)}};
    c.count(later ? "faults_at_refresh" : "faults_at_start");
    c.seen(fnv(f.what) ^ fingerprint(d));
    if (later) { l.get("/updateCache?names=all"); if (l.dead()) { l.down(); continue; } }
    else if (!l.up(dir, 2, all, "start-up after " + f.what)) { l.down(); continue; }
    judgeFaultyWeb(c, l, d, f, later ? " (refresh)" : " (start)");
    if (c.samples.size() < 2) c.sample({{"fault", f.what}, {"history", l.history.substr(0, 300)}});
    if (!l.dead() && c.rng.chance(0.5)) {
      faults::removeTree(dir);
      faults::copyTree(master, dir);
      l.get("/updateCache?names=all");
      for (int j = 0; j < 4 && !l.dead(); j++) {
        Query q = makeQuery(c, d, c.rng.chance(0.4));
        if (!servable(d, q)) continue;
        Ans a = l.ask(d, q);
        if (!a.got) break;
        if (a.status() == "data_error" || a.status() == "query_error") { c.violation("not-restored", "good files again, but " + a.raw + " (before: " + f.what + ")", l.context); break; }
        checkAgainstReference(c, d, q, a.j);
        c.count("answers_after_restore");
      }
    }
    l.down();
  }
}

// C18 -----------------------------------------------------------------------------------------
int extremeTime(Case& c) {
  static const std::vector<int> t{0, 1, 86399, 86400, 86401, 115199, 115200, 115201, 118799, 118800, 118801, 200000, 1000000, 16777216, 16777217, MAXINT - 1300, MAXINT - 1200, MAXINT - 180, MAXINT - 1, MAXINT};
  return c.rng.pick(t);
}
void extremeLimits(Case& c, Query& q) {
  static const std::vector<int> v{-MAXINT - 1, -1, 0, 1, 32767, 32768, 65535, 65536, 115200, 16777217, MAXINT - 1, MAXINT};
  for (auto* o : {&q.minWait, &q.maxTravel, &q.maxAccess, &q.maxEgress, &q.maxTransfer, &q.firstWait}) if (c.rng.chance(0.35)) *o = c.rng.pick(v);
}
void refreshRequest(Case& c, Web& w, bool& base) {
  Live& l = *w.live;
  Rng& r = c.rng;
  static const std::vector<std::string> alias{"names", "caches", "cache_names", "name", "cache", "cache_name"};
  static const std::vector<std::string> known{"data_sources", "persons", "od_trips", "agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules", "all"};
  static const std::vector<std::string> unknown{"bogus", "", "ALL", "all ", "\"", "a\\b", "schedule", "=", "x=all", "<>", "\x01\x02", "\xff\xfe", "places", "households"};
  std::vector<std::string> names;
  const int n = r.chance(0.1) ? 0 : r.range(1, 4);
  for (int i = 0; i < n; i++) names.push_back(r.chance(0.6) ? r.pick(known) : r.pick(unknown));
  std::string t = "/updateCache";
  if (r.chance(0.2)) t += "/";
  std::multiset<std::string> want;
  if (!names.empty()) {
    std::string v;
    for (size_t i = 0; i < names.size(); i++) { if (i) v += ","; v += names[i]; if (std::count(known.begin(), known.end(), names[i])) want.insert(names[i]); }
    t += "?" + r.pick(alias) + "=" + enc(v);
  } else if (r.chance(0.5)) t += r.pick(std::vector<std::string>{"?", "?names", "?names=", "?x=all", "?names=,", "?=", "?&&", "?names=%", "?names=%zz", "?path=x"});
  Ans a = l.get(t);
  if (!a.got) return;
  c.count("refresh_requests");
  const json ctx = {{"target", t}, {"got", a.raw.substr(0, 1000)}};
  if (want.empty()) {
    if (a.status() != "error") c.violation("refresh-without-known-name", "/updateCache without a known cache name answers " + a.raw.substr(0, 200), ctx);
    else if (a.http != 200 && a.http != 400) c.violation("refresh-http-status", "HTTP " + std::to_string(a.http), ctx);
    else c.count("refresh_errors");
    return;
  }
  if (a.status() != "success" || a.http != 200) { c.violation("refresh-failed", "/updateCache with known names answers " + a.raw.substr(0, 200), ctx); return; }
  std::multiset<std::string> got;
  std::string cur;
  const std::string cn = a.j.contains("cache_names") && a.j["cache_names"].is_string() ? a.j["cache_names"].get<std::string>() : "";
  for (size_t i = 0; i <= cn.size(); i++) { if (i == cn.size() || cn[i] == ',') { got.insert(cur); cur.clear(); } else cur += cn[i]; }
  std::set<std::string> gs(got.begin(), got.end()), ws(want.begin(), want.end());
  if (gs != ws) c.violation("refresh-names", "cache_names \"" + cn + "\" are not the refreshed caches of " + t, ctx);
  else c.count("refresh_successes");
  for (auto& x : want) if (x == "agencies" || x == "services" || x == "nodes" || x == "lines" || x == "paths") base = true;
}
void webC18(Case& c) {
  gen::Cfg k = webCfg(c);
  k.emptyScenario = true;
  k.zeroHops = false;
  auto w = web(c, k);
  Live& l = *w->live;
  Rng& r = c.rng;
  bool notReady = c.rng.chance(0.08);
  if (notReady) {
    Dataset x = w->d;
    cripple(c, x);
    faults::removeTree(w->dir);
    mkdir(w->dir.c_str(), 0755);
    writeCache(x, w->dir);
  }
  if (!l.up(w->dir, w->threads, w->cacheAll)) return;
  auto valid = [&](Query& q) {
    do {
      q = anyQuery(c, w->d);
      if (r.chance(0.25)) q.time = extremeTime(c);
      if (r.chance(0.2)) extremeLimits(c, q);
    } while (!servable(w->d, q));
  };
  auto judgeValid = [&](const Query& q, Req& x, const std::string& t, const Ans& a) {
    if (!a.got) return;
    c.count("valid_requests");
    if (notReady) { if (a.status() != "data_error") c.violation("not-data-error", "data are incomplete, answer is " + a.raw.substr(0, 200), {{"target", t}}); return; }
    if (a.http != 200 || a.status() == "query_error" || a.status() == "data_error") { c.violation("valid-refused", "valid request " + t + " answers " + a.raw.substr(0, 200), {{"target", t}, {"context", l.context}}); return; }
    l.judgeEcho(w->d, q, a);
    if (q.kind != Query::SUMMARY && !q.alternatives) { checkAgainstReference(c, w->d, q, a.j); c.count("valid_compared"); }
    c.seen(fnv(t));
    (void)x;
  };
  const int n = c.thorough ? 150 : 60;
  for (int i = 0; i < n && !l.dead(); i++) {
    const double z = r.next() % 1000 / 1000.0;
    Query q;
    valid(q);
    if (z < 0.3) { // valid in various spellings
      Req x = reqOf(w->d, q);
      if (r.chance(0.5)) for (size_t j = x.p.size(); j > 1; j--) std::swap(x.p[j - 1], x.p[r.range(0, j - 1)]);
      if (r.chance(0.2)) x.p.insert(x.p.begin() + r.range(0, x.p.size()), {r.pick(std::vector<std::string>{"foo", "Origin", "time", "max_travel", "calculate_all_stops", "x%y", "é"}), r.pick(std::vector<std::string>{"bar", "", "1", "\"", "a=b", std::string(3000, 'z')})});
      if (r.chance(0.1)) x.p.push_back(x.p[r.range(0, x.p.size() - 1)]);
      const std::string t = target(r, x, r.chance(0.5));
      Ans a = l.api(t, x.kind);
      judgeValid(q, x, t, a);
    } else if (z < 0.62) {
      Req x = badRequest(c, w->d, q);
      const std::string t = target(r, x, r.chance(0.2));
      Ans a = l.api(t, x.kind);
      c.count("defective_requests");
      c.seen(fnv(x.what));
      if (a.got && a.status() == "data_error" && !notReady) c.violation("data-error", "data are complete, answer is " + a.raw, {{"target", t}});
      judgeBad(c, l, x, t, a);
    } else if (z < 0.74) {
      Req x = oddRequest(c, w->d, q);
      l.api(target(r, x, r.chance(0.2)), x.kind);
      c.count("odd_requests");
      c.seen(fnv(x.what));
    } else if (z < 0.80) { // several requests on one connection
      std::vector<Query> qs(r.range(2, 4));
      std::vector<std::string> ts;
      std::vector<Req> xs;
      for (auto& y : qs) { valid(y); xs.push_back(reqOf(w->d, y)); ts.push_back(target(r, xs.back())); }
      auto rs = httpGetMany(l.srv.port(), ts, 60);
      for (size_t j = 0; j < rs.size() && !l.dead(); j++) { Ans a = l.judgeFraming(ts[j], rs[j]); l.judgeApi(ts[j], xs[j].kind, a); judgeValid(qs[j], xs[j], ts[j], a); }
      c.count("keep_alive_series");
    } else if (z < 0.84) {
      l.get(r.pick(std::vector<std::string>{"/", "/favicon.ico", "/v2", "/v2/route/x", "/v1/route", "/v2/routes?origin=1", "/V2/ROUTE", "/%2e%2e/%2e%2e/etc/passwd", "/v2/route%00", "//v2/route", "/exit", "/exit?a"}));
      c.count("other_paths");
    } else if (z < 0.97) {
      bool base = false;
      refreshRequest(c, *w, base);
      if (base && !l.dead()) { // routes after a refresh of base data from unchanged files
        for (int j = 0; j < 2 && !l.dead(); j++) {
          Query y;
          valid(y);
          Req x = reqOf(w->d, y);
          const std::string t = target(r, x);
          Ans a = l.api(t, x.kind);
          judgeValid(y, x, t, a);
          c.count("valid_after_base_refresh");
        }
      }
    } else { // custom path: other (or no) files, then the original ones again
      Dataset nd = gen::dataset(r, k);
      const std::string sub = r.pick(std::vector<std::string>{"custom", "a b", "q\"uote", "back\\slash", "x=y", "é", "50%", "sub/dir"});
      if (r.chance(0.7)) {
        mkdir((w->dir + "/" + sub.substr(0, sub.find('/'))).c_str(), 0755);
        mkdir((w->dir + "/" + sub).c_str(), 0755);
        writeCache(nd, w->dir + "/" + sub);
      }
      Ans a = l.get("/updateCache?names=" + std::string(r.chance(0.6) ? "all" : "schedules,scenarios") + "&" + r.pick(std::vector<std::string>{"path", "custom_path", "custom_cache_path"}) + "=" + enc(sub));
      if (a.got && (a.status() != "success" || a.j.value("custom_cache_path", std::string()) != sub)) c.violation("custom-path", "/updateCache with a custom path answers " + a.raw.substr(0, 200), {{"path", sub}});
      for (int j = 0; j < 2 && !l.dead(); j++) { Query y; valid(y); Req x = reqOf(w->d, y); l.api(target(r, x), x.kind); }
      l.get("/updateCache?names=all");
      c.count("custom_paths");
    }
  }
  l.checkAlive("at the end");
  c.sample({{"history", l.history.substr(0, 800)}});
}

// C19 -----------------------------------------------------------------------------------------
void webC19(Case& c) {
  gen::Cfg k = webCfg(c);
  k.euclidP = 0.1;
  k.emptyScenario = c.rng.chance(0.3);
  auto w = web(c, k);
  Live& l = *w->live;
  if (!l.up(w->dir, w->threads, w->cacheAll)) return;
  for (int i = 0; i < (c.thorough ? 40 : 20) && !l.dead(); i++) {
    Query q = makeQuery(c, w->d, false), q2;
    q.alternatives = c.rng.chance(0.6);
    q2 = q;
    q2.kind = Query::SUMMARY;
    if (c.rng.chance(0.12)) {
      Req x = badRequest(c, w->d, q), y;
      y = x;
      y.kind = Query::SUMMARY;
      Ans a = l.api(target(c.rng, x), Query::ROUTE), b = l.api(target(c.rng, y), Query::SUMMARY);
      if (a.got && b.got) checkSummary(c, w->d, q, a.j, b.j);
      c.count("error_pairs");
      continue;
    }
    const bool flip = c.rng.chance(0.5);
    Ans a, b;
    if (flip) b = l.ask(w->d, q2);
    a = l.ask(w->d, q);
    if (!flip) b = l.ask(w->d, q2);
    if (a.got && b.got) checkSummary(c, w->d, q, a.j, b.j);
  }
}

// C20 -----------------------------------------------------------------------------------------
const std::vector<std::string> totalFaults{"drop", "reset", "drop_after_request", "reset_after_request", "status500", "status400", "status503_html", "status204", "status500_table", "empty", "nonjson", "html", "binary", "half_json", "code_only",
  "no_durations", "null_durations", "null_row", "empty_rows", "empty_row", "null_entries", "only_first", "scalar_durations", "array_top", "number_top", "null_top", "string_durations", "truncate_body", "truncate_body_all", "truncate_head",
  "bad_status_line", "bad_length", "negative_length", "huge_length", "huge_chunk", "chunked_bad", "chunked_truncated", "no_length"};
const std::vector<std::string> partialFaults{"no_distances", "null_one", "null_distance_one", "null_distances_row", "fewer", "fewer_distances", "fewer_durations", "string_entries", "more", "more_durations"};

void webC20(Case& c) {
  gen::Cfg k = webCfg(c);
  auto w = web(c, k);
  Live& l = *w->live;
  if (!l.up(w->dir, w->threads, w->cacheAll)) return;
  struct Item { Query q; json base; std::string status; long tables = 0; };
  std::vector<Item> pool;
  for (int i = 0; i < 12 && pool.size() < 6; i++) {
    Item it;
    it.q = anyQuery(c, w->d);
    if (!servable(w->d, it.q)) continue;
    const long r0 = l.stub.requests();
    Ans a = l.ask(w->d, it.q);
    if (!a.got) return;
    it.tables = l.stub.requests() - r0;
    it.base = seenAs(a);
    it.status = a.status();
    if (it.status != "success" && i < 9 && c.rng.chance(0.7)) continue;
    pool.push_back(it);
  }
  if (pool.empty()) return;
  auto faulty = [&](const Item& it, const Ans& a, const std::string& what, bool total) {
    if (!a.got) return;
    c.count("affected_requests");
    c.seen(fnv(what) ^ caseHash(w->d, it.q));
    c.count("affected_" + a.status());
    const json ctx = {{"fault", what}, {"query", it.q.url(w->d)}, {"got", a.raw.substr(0, 2000)}, {"context", l.context}};
    if (a.status() == "data_error") { c.violation("data-error", "router fault " + what + " answered with " + a.raw, ctx); return; }
    if (a.status() != "success") return;
    if (it.q.kind == Query::SUMMARY) {
      if (total && a.j["result"].value("nbRoutes", -1) != 0) c.violation("success-without-router", "router fault " + what + ", summary reports routes", ctx);
      return;
    }
    if (total) { c.violation("success-without-router", "router fault " + what + ", answer is success", ctx); return; }
    if (it.q.kind == Query::ROUTE) {
      auto adm = w->d.admitted(it.q.scenario);
      for (auto& route : a.j["result"]["routes"]) {
        std::vector<orc::Issue> is;
        orc::checkRoute(w->d, it.q, adm, route, is);
        for (auto& x : is) if (x.tag == "C01" || x.tag == "C02") { c.violation("invented-" + x.key, "router fault " + what + ": " + x.msg, ctx); return; }
      }
      c.count("partial_successes_checked");
    }
  };
  const int episodes = c.thorough ? 40 : 16;
  for (int e = 0; e < episodes && !l.dead(); e++) {
    const double z = c.rng.next() % 1000 / 1000.0;
    std::string what;
    if (z < 0.12) { // no router at all
      const int port = l.stub.port();
      l.stub.stop();
      what = "refused";
      for (int i = 0; i < 3 && !l.dead(); i++) {
        const Item& it = c.rng.pick(pool);
        Ans a = l.ask(w->d, it.q);
        // the server asks the router only when some stop is near enough; none of these queries can succeed without it
        faulty(it, a, what, true);
      }
      bool back = false;
      for (int i = 0; i < 50 && !back; i++) { back = l.stub.start(port) == port; if (!back) usleep(50000); }
      if (!back) { fprintf(stderr, "the router stub cannot come back on its port\n"); _exit(3); }
      c.count("outages");
    } else {
      const bool total = z < 0.75;
      const std::string f = c.rng.pick(total ? totalFaults : partialFaults);
      const int mode = c.rng.range(0, 3); // both tables, first, second, concurrent
      what = f + (mode == 0 ? " always" : mode == 1 ? " first table" : mode == 2 ? " second table" : " concurrent");
      c.count(total ? "total_faults" : "partial_faults");
      if (mode == 3) {
        l.stub.setFault(f);
        std::vector<HttpReply> rs(6);
        std::vector<int> which(6);
        std::vector<std::string> ts(6);
        for (int i = 0; i < 6; i++) { which[i] = c.rng.range(0, pool.size() - 1); ts[i] = pool[which[i]].q.url(w->d); l.history += " " + ts[i]; }
        std::vector<std::thread> th;
        for (int i = 0; i < 6; i++) th.emplace_back([&, i] { rs[i] = httpGet(l.srv.port(), ts[i], 60); });
        for (auto& t : th) t.join();
        for (int i = 0; i < 6 && !l.dead(); i++) {
          Ans a = l.judgeFraming(ts[i], rs[i]);
          l.judgeApi(ts[i], pool[which[i]].q.kind, a);
          l.judgeEcho(w->d, pool[which[i]].q, a);
          faulty(pool[which[i]], a, what, total);
        }
      } else {
        for (int i = 0; i < 2 && !l.dead(); i++) {
        const Item& it = c.rng.pick(pool);
          const long f0 = l.stub.faulted(), r0 = l.stub.requests();
          l.stub.setFault(f, mode == 2 ? 1 : 0, mode == 0 ? -1 : 1);
          Ans a = l.ask(w->d, it.q);
          // the client may ask again when the connection fails, and the second reply of a single fault is good
          if (l.stub.faulted() > f0 && mode != 0 && a.got && l.stub.requests() - r0 > it.tables && seenAs(a) == it.base) c.count("recovered_by_retry");
          else if (l.stub.faulted() > f0) faulty(it, a, what, total);
          else { c.count("unaffected"); if (a.got && seenAs(a) != it.base) c.violation("unaffected-differs", "no router answer was faulty, yet the answer changed", {{"query", it.q.url(w->d)}, {"context", l.context}}); }
        }
      }
      l.stub.setFault("");
    }
    // recovered
    for (int i = 0; i < 2 && !l.dead(); i++) {
        const Item& it = c.rng.pick(pool);
      Ans a = l.ask(w->d, it.q);
      if (!a.got) break;
      c.count("answers_after_recovery");
      json s = seenAs(a);
      if (s != it.base) c.violation("not-recovered", "after router fault " + what + " a request is answered differently: " + json::diff(it.base, s).dump().substr(0, 300), {{"query", it.q.url(w->d)}, {"before", it.base}, {"after", s}, {"history", l.history}, {"context", l.context}});
    }
    if (c.samples.size() < 2) c.sample({{"fault", what}});
  }
  l.checkAlive("at the end");
}

// C14 -----------------------------------------------------------------------------------------
// Reports of the race detector in the server's log
void raceReports(Case& c, Live& l) {
  const std::string log = l.srv.wholeLog();
  size_t p = 0;
  std::set<std::string> seen;
  while ((p = log.find("WARNING: ThreadSanitizer: ", p)) != std::string::npos) {
    size_t e = log.find("==================", p);
    const std::string rep = log.substr(p, (e == std::string::npos ? log.size() : e) - p);
    p += 10;
    std::string what = rep.substr(26, rep.find_first_of("(\n", 26) - 26);
    while (!what.empty() && what.back() == ' ') what.pop_back();
    for (auto& ch : what) if (!isalnum((unsigned char)ch)) ch = '-';
    // the innermost functions of the code under test on the access stacks
    std::set<std::string> names;
    bool own = true;
    std::stringstream ss(rep);
    std::string line;
    int stacks = 0;
    while (std::getline(ss, line)) {
      if (line.rfind("    #", 0) != 0) {
        if (line.find(" of size ") != std::string::npos || line.find("revious") != std::string::npos) { own = true; stacks++; }
        else if (!line.empty() && line[0] == ' ') own = false;
        continue;
      }
      size_t q = line.find("TrRouting::");
      if (own && q != std::string::npos && stacks > 0) { names.insert(line.substr(q, line.find_first_of("(<[ ", q + 11) - q)); own = false; }
    }
    std::string key = "tsan:" + what;
    for (auto& n : names) key += "@" + n;
    if (!seen.insert(key).second) continue;
    c.violation(key, "ThreadSanitizer reports " + what + " in the server", {{"report", rep.substr(0, 5000)}, {"context", l.context}});
  }
}
struct Shot { int item = -1; std::string target; HttpReply r; double from = 0, to = 0; };
double clockNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// binaryEnv: which server; the tsan one delays its threads by VERIF_PERTURB
void concurrent(Case& c, const char* binaryEnv, bool changing) {
  const bool tsan = std::string(binaryEnv).find("TSAN") != std::string::npos;
  Rng& r = c.rng;
  gen::Cfg k = webCfg(c);
  k.scenarios = r.range(2, 6);
  if (!changing) k.euclidP = 0.15;
  auto w = std::make_unique<Web>();
  w->d = gen::dataset(r, k);
  w->dir = c.scratchDir();
  writeCache(w->d, w->dir);
  writeAux(w->d, w->dir);
  w->live = std::make_unique<Live>(c, binaryEnv);
  Live& l = *w->live;
  stubFor(l, w->d);
  l.euclid = w->d.euclid;
  w->cacheAll = r.chance(0.3);
  w->threads = r.range(2, 8);
  l.context = {{"dataset", toJson(w->d)}, {"cacheAll", w->cacheAll}, {"threads", w->threads}};
  static const int modes[] = {0, 1, 3, 4, 6, 2};
  const std::string perturb = std::to_string(modes[r.range(0, 5)]) + "," + std::to_string(r.next() % 1000000007);
  auto up = [&](bool disturbed) {
    if (tsan && disturbed) setenv("VERIF_PERTURB", perturb.c_str(), 1);
    else unsetenv("VERIF_PERTURB");
    const bool ok = l.up(w->dir, w->threads, w->cacheAll);
    unsetenv("VERIF_PERTURB");
    return ok;
  };
  struct Item { Query q; std::string target; int kind; std::vector<json> base; bool valid; };
  std::vector<Item> pool;
  // alone: every request on an idle server
  if (!up(false)) return;
  for (int i = 0; i < 40 && pool.size() < 10; i++) {
    Item it;
    it.q = anyQuery(c, w->d);
    if (!servable(w->d, it.q)) continue;
    it.valid = true;
    it.kind = it.q.kind;
    it.target = it.q.url(w->d);
    if (r.chance(0.1)) { Req b = badRequest(c, w->d, it.q); it.target = target(r, b); it.kind = b.kind; it.valid = false; }
    Ans a = l.api(it.target, it.kind);
    if (!a.got) return;
    if (it.valid && a.status() != "success" && i < 30 && r.chance(0.7)) continue;
    it.base.push_back(seenAs(a));
    pool.push_back(it);
  }
  l.down();
  if (pool.size() < 2) return;
  const std::vector<std::string> refreshes{"all", "schedules", "scenarios,schedules", "scenarios", "nodes", "lines,paths", "services", "agencies"};
  Dataset d = w->d;
  if (!up(true)) return;
  const int bursts = c.thorough ? 10 : 4;
  for (int b = 0; b < bursts && !l.dead(); b++) {
    const bool refreshing = changing || r.chance(0.35);
    std::string cmd = r.pick(refreshes);
    bool newStreets = false; // the router's tables change too: what is answered meanwhile may mix them with the old stops
    if (changing) {
      // new files, of which the server learns during the burst
      const std::string kind = r.pick(std::vector<std::string>{"all", "schedules", "both"});
      Dataset nd = evolve(c, d, kind, k);
      if (nd.trips.empty() || nd.scenarios.empty() || nd.paths.empty()) { c.count("skipped_evolutions"); continue; }
      Live idle(c, binaryEnv);
      idle.context = l.context;
      const std::string dir = c.scratchDir();
      writeCache(nd, dir);
      writeAux(nd, dir);
      stubFor(idle, nd);
      unsetenv("VERIF_PERTURB");
      if (!idle.up(dir, 1, w->cacheAll)) return;
      for (auto& it : pool) {
        Ans a = idle.api(it.target, it.kind);
        if (!a.got) return;
        it.base.push_back(seenAs(a));
      }
      idle.down();
      if (kind == "all") { faults::removeTree(w->dir); mkdir(w->dir.c_str(), 0755); writeCache(nd, w->dir); writeAux(nd, w->dir); cmd = "all"; newStreets = true; }
      else if (kind == "both") { writeSchedules(nd, w->dir); writeScenarios(nd, w->dir); cmd = "scenarios,schedules"; }
      else { writeSchedules(nd, w->dir); cmd = "schedules"; }
      d = nd;
      l.context["then"] = {{"kind", kind}, {"dataset", toJson(nd)}};
    }
    const int clients = r.range(3, 10), each = c.thorough ? r.range(4, 20) : r.range(3, 10);
    const int style = r.range(0, 3); // random, the same requests everywhere, one scenario per client, keep-alive
    std::vector<std::vector<Shot>> shots(clients);
    for (int t = 0; t < clients; t++)
      for (int i = 0; i < each; i++) {
        Shot s;
        s.item = style == 1 ? i % (int)pool.size() : r.range(0, (int)pool.size() - 1);
        if (style == 2) for (int n = 0; n < 12 && pool[s.item].q.scenario % clients != t % clients; n++) s.item = r.range(0, (int)pool.size() - 1);
        s.target = pool[s.item].target;
        shots[t].push_back(s);
      }
    Shot refresh;
    refresh.target = "/updateCache?names=" + cmd;
    const int refreshDelay = r.range(0, 30000), refreshTimes = changing ? 1 : r.range(1, 3);
    std::vector<HttpReply> again;
    std::vector<std::thread> th;
    for (int t = 0; t < clients; t++)
      th.emplace_back([&, t] {
        if (style == 3 && !changing) {
          std::vector<std::string> ts;
          for (auto& s : shots[t]) ts.push_back(s.target);
          auto rs = httpGetMany(l.srv.port(), ts, 120);
          for (size_t i = 0; i < shots[t].size(); i++) if (i < rs.size()) shots[t][i].r = rs[i];
        } else for (auto& s : shots[t]) { s.from = clockNow(); s.r = httpGet(l.srv.port(), s.target, 120); s.to = clockNow(); }
      });
    if (refreshing) th.emplace_back([&] {
      for (int i = 0; i < refreshTimes; i++) {
        usleep(refreshDelay);
        refresh.from = clockNow();
        if (newStreets) l.stub.setData(d);
        refresh.r = httpGet(l.srv.port(), refresh.target, 120);
        refresh.to = clockNow();
        again.push_back(refresh.r);
      }
    });
    for (auto& t : th) t.join();
    c.count("bursts");
    c.count(refreshing ? "bursts_with_refresh" : "bursts_without_refresh");
    l.history = "burst of " + std::to_string(clients) + "x" + std::to_string(each) + (refreshing ? " with " + refresh.target : "");
    for (auto& x : again) {
      Ans a = l.judgeFraming(refresh.target, x);
      if (a.got && (a.status() != "success")) c.violation("refresh-failed", "a refresh under load answers " + a.raw.substr(0, 200), {{"context", l.context}});
      c.count("refreshes");
    }
    for (int t = 0; t < clients && !l.dead(); t++)
      for (auto& s : shots[t]) {
        Ans a = l.judgeFraming(s.target, s.r);
        if (l.dead()) break;
        if (!a.got) continue;
        c.count("concurrent_answers");
        const Item& it = pool[s.item];
        const json j = seenAs(a);
        bool ok;
        if (changing) {
          const json &o = it.base[it.base.size() - 2], &n = it.base.back();
          if (s.to < refresh.from) { ok = j == o; c.count("before_refresh"); }
          else if (s.from > refresh.to) { ok = j == n; c.count("after_refresh"); }
          else { ok = newStreets || j == o || j == n; c.count(newStreets ? "during_replacement" : "during_refresh"); if (!newStreets && o != n) c.count("during_telling_refresh"); }
        } else ok = j == it.base.back();
        if (!ok) { c.violation("concurrent-differs", "among concurrent requests " + s.target + " is answered differently than alone: " + json::diff(it.base.back(), j).dump().substr(0, 400), {{"alone", it.base}, {"concurrent", j}, {"history", l.history}, {"context", l.context}}); return raceReports(c, l); }
        if (a.status() == "success") c.seen(fnv(s.target) ^ fnv(std::to_string(c.index) + "/" + std::to_string(b) + "/" + std::to_string(t)));
      }
    // nothing is left behind
    for (auto& it : pool) {
      if (l.dead()) break;
      Ans a = l.api(it.target, it.kind);
      if (!a.got) break;
      c.count("answers_afterwards");
      const json j = seenAs(a);
      if (j != it.base.back()) { c.violation("later-differs", "after concurrent requests " + it.target + " is answered differently: " + json::diff(it.base.back(), j).dump().substr(0, 400), {{"alone", it.base.back()}, {"later", j}, {"history", l.history}, {"context", l.context}}); return raceReports(c, l); }
    }
  }
  l.checkAlive("at the end");
  if (tsan) raceReports(c, l);
  c.sample({{"requests", pool.size()}, {"threads", w->threads}, {"perturbation", perturb}});
}
void webC14tsan(Case& c) { concurrent(c, "VERIF_SERVER_TSAN", false); }
void webC14asan(Case& c) { concurrent(c, "VERIF_SERVER_ASAN", false); }
void webC15load(Case& c) { concurrent(c, c.rng.chance(0.5) ? "VERIF_SERVER_TSAN" : "VERIF_SERVER_ASAN", true); }

} // namespace

bool httpCheck(const std::string& prop, RunSpec& s) {
  s.prop = prop;
  s.batch = 1;
  s.caseLimit = 300;
  s.retryLimit = 400;
  if (prop == "C14tsan") s.fn = webC14tsan;
  else if (prop == "C14asan") s.fn = webC14asan;
  else if (prop == "C15load") s.fn = webC15load;
  else if (prop == "C13http") s.fn = webC13;
  else if (prop == "C15http") s.fn = webC15;
  else if (prop == "C16http") s.fn = webC16;
  else if (prop == "C17http") s.fn = webC17;
  else if (prop == "C18http") s.fn = webC18;
  else if (prop == "C19http") s.fn = webC19;
  else if (prop == "C20http") s.fn = webC20;
  else return false;
  return true;
}
