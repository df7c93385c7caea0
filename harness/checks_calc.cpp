// C01-C13: the real calculator, in process, against the reference semantics.
#include "checks.hpp"
#include "gen.hpp"
#include "http.hpp"
#include "oracle.hpp"
#include "sut.hpp"
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>

using nlohmann::json;
using namespace m;

#include "common.hpp"

namespace cc {
json detail(const Dataset& d, const Query& q, const json& resp) {
  return {{"query", q.url(d)}, {"response", resp}, {"dataset", toJson(d)}, {"request", toJson(d, q)}};
}

// Harness-level sanity of an in-process answer
bool usable(Case& c, const Dataset& d, const Query& q, const json& r) {
  if (r.contains("__exception")) { c.violation("exception", "query ended with exception: " + r["__exception"].get<std::string>(), detail(d, q, r)); return false; }
  if (r.contains("__null")) { c.violation("no-answer", "query produced no result object", detail(d, q, r)); return false; }
  if (r.contains("__paramError")) { c.violation("param-error", "valid query rejected", detail(d, q, r)); return false; }
  if (r.value("status", "") != "success" && r.value("status", "") != "no_routing_found") { c.violation("status", "unexpected status " + r.dump().substr(0, 200), detail(d, q, r)); return false; }
  return true;
}
uint64_t caseHash(const Dataset& d, const Query& q) { return fnv(q.url(d), gen::hasZeroHop(d) ? 3 : 7) ^ fingerprint(d); }

gen::Cfg cfgFor(Case& c) {
  gen::Cfg k;
  double x = c.rng.next() % 1000 / 1000.0;
  if (x < 0.25) { k.minNodes = 2; k.maxNodes = 5; k.minLines = 1; k.maxLines = 4; k.maxTripsPerPath = 3; }
  else if (x < 0.8) { k.minNodes = 4; k.maxNodes = 9; k.minLines = 2; k.maxLines = 7; }
  else if (x < 0.95) { k.minNodes = 8; k.maxNodes = 16; k.minLines = 4; k.maxLines = 12; k.maxPathLen = 9; k.maxTripsPerPath = 6; }
  else if (x < 0.98) { k.minNodes = 15; k.maxNodes = 30; k.minLines = 8; k.maxLines = 20; k.maxPathLen = 12; k.maxTripsPerPath = 8; }
  else if (x < 0.985) { k.minNodes = 4; k.maxNodes = 12; k.minLines = 2; k.maxLines = 5; k.longPaths = true; }
  else if (x < 0.988) { k.minNodes = 10; k.maxNodes = 20; k.minLines = 10; k.maxLines = 25; k.maxPathLen = 12; k.maxTripsPerPath = 40; }
  else { k.minNodes = 4; k.maxNodes = 9; k.minLines = 2; k.maxLines = 7; k.huge = true; }
  k.zeroHops = c.rng.chance(0.25);
  return k;
}

int queriesPerCase(const Case& c) { return c.thorough ? 16 : 12; }

// One more family: chains that need many transfers, with tight connections
Query makeQuery(Case& c, const Dataset& d, bool access) {
  for (int tries = 0;; tries++) {
    Query q = gen::query(c.rng, d, access);
    if (c.rng.chance(0.25)) gen::sharpen(c.rng, d, q);
    if (c.rng.chance(0.02)) q.minWait = c.rng.pick(std::vector<int>{20000, 32767, 32768, 40000, 65536, 66000});
    if (gen::zeroWaitZeroHop(d, q)) {
      q.minWait = 60;
      if (d.anyTransferable() && tries <= 20) continue;
    }
    gen::settle(d, q);
    return q;
  }
}

Query relatedQuery(Case& c, const Dataset& d, const Query& base) {
  Query q = base;
  Rng& r = c.rng;
  const int n = r.chance(0.7) ? 1 : 2;
  for (int i = 0; i < n; i++) switch (r.range(0, 10)) {
    case 0: case 1: if (q.kind == Query::ACCESS) q.kind = Query::ROUTE; else q.alternatives = !q.alternatives; break;
    case 2: q.kind = q.kind == Query::ROUTE ? Query::SUMMARY : Query::ROUTE; break;
    case 3: q.kind = q.kind == Query::ACCESS ? Query::ROUTE : Query::ACCESS; q.alternatives = false; break;
    case 4: q.arrival = !q.arrival; q.time = std::max(0, q.time + (q.arrival ? 1 : -1) * (int)r.range(600, 5400)); break;
    case 5: q.time = std::max(0, q.time + (int)r.range(-1800, 1800)); break;
    case 6: std::swap(q.origin, q.destination); break;
    case 7: q.destination = r.range(0, d.places.size() - 1); break;
    case 8: q.scenario = r.range(0, d.scenarios.size() - 1); break;
    case 9: q.maxTravel = r.chance(0.4) ? 0 : r.range(300, 5400); break;
    default: { auto& l = *r.pick(std::vector<std::optional<int>*>{&q.maxAccess, &q.maxEgress, &q.maxTransfer, &q.firstWait}); if (l) l.reset(); else l = r.range(60, 900); }
  }
  gen::settle(d, q);
  return q;
}
bool skipZero(const Dataset& d, const Query& q) { return gen::zeroWaitZeroHop(d, q); }

// The most specific reason the reference predicates give; with `none` also the generic one
std::string reasonFor(const Dataset& d, const Query& q, bool none) {
  auto adm = d.admitted(q.scenario);
  auto l = orc::limits(q);
  std::string want;
  if (q.kind == Query::ACCESS) {
    const bool acc = orc::anyAccess(d, q.origin, q.arrival ? l.maxEgr : l.maxAcc);
    if (!acc) want = "NO_ACCESS_AT_PLACE";
    else if (q.arrival ? !orc::serviceTo(d, adm, q.origin, q.time, l) : !orc::serviceFrom(d, adm, q.origin, q.time, l)) want = "NO_SERVICE_AT_PLACE";
    else if (none) want = "NO_ROUTING_FOUND";
  } else {
    const bool ao = orc::anyAccess(d, q.origin, l.maxAcc), ad = orc::anyAccess(d, q.destination, l.maxEgr);
    if (!ao && !ad) want = "NO_ACCESS_AT_ORIGIN_AND_DESTINATION";
    else if (!ao) want = "NO_ACCESS_AT_ORIGIN";
    else if (!ad) want = "NO_ACCESS_AT_DESTINATION";
    else if (!q.arrival && !orc::serviceFrom(d, adm, q.origin, q.time, l)) want = "NO_SERVICE_FROM_ORIGIN";
    else if (q.arrival && !orc::serviceTo(d, adm, q.destination, q.time, l)) want = "NO_SERVICE_TO_DESTINATION";
    else if (none) want = "NO_ROUTING_FOUND";
  }
  return want;
}

// Accessibility answer, stop by stop (C08 needs the cap disabled)
void compareAccess(Case& c, const Dataset& d, const Query& q, const json& r) {
  auto adm = d.admitted(q.scenario);
  auto l = orc::limits(q);
  std::vector<long> ref;
  if (q.arrival) ref = orc::reverse(d, adm, q.origin, q.time, l).board;
  else ref = orc::forward(d, adm, q.origin, q.time, l).alight;
  std::vector<long> got(d.nodes.size(), -1);
  std::vector<char> listed(d.nodes.size(), 0);
  json nodes = r["status"] == "success" ? r["result"]["nodes"] : json::array();
  bool broken = false;
  for (auto& n : nodes) {
    int x = orc::nodeByUuid(d, n.value("nodeUuid", ""));
    if (x < 0) { c.violation("unknown-stop", "lists an unknown stop", detail(d, q, r)); broken = true; break; }
    if (listed[x]) { c.violation("duplicate-stop", "stop " + std::to_string(x) + " listed twice", detail(d, q, r)); broken = true; break; }
    listed[x] = 1;
    got[x] = n["nodeTime"].get<long>();
    long tt = n["totalTravelTime"].get<long>();
    if (tt != (q.arrival ? q.time - got[x] : got[x] - q.time)) c.violation("travel-time", "totalTravelTime " + std::to_string(tt) + " is not the difference between nodeTime and the requested time", detail(d, q, r));
    if (n.value("nodeName", "") != d.nodes[x].name || n.value("nodeCode", "") != d.nodes[x].code) c.violation("stop-name", "wrong name or code for stop " + std::to_string(x), detail(d, q, r));
    const json co = n.contains("nodeCoordinates") ? n["nodeCoordinates"] : json();
    if (!co.is_array() || co.size() != 2 || std::fabs(co[0].get<double>() - d.nodes[x].lonE6 / 1e6) > 1e-6 || std::fabs(co[1].get<double>() - d.nodes[x].latE6 / 1e6) > 1e-6) c.violation("stop-coordinates", "wrong coordinates for stop " + std::to_string(x), detail(d, q, r));
  }
  if (broken) return;
  if (r["status"] == "success" && r["result"].value("totalNodeCount", -1L) != (long)d.nodes.size()) c.violation("total-node-count", "totalNodeCount " + std::to_string(r["result"].value("totalNodeCount", -1L)) + ", the data has " + std::to_string(d.nodes.size()), detail(d, q, r));
  size_t reach = 0;
  for (size_t x = 0; x < ref.size(); x++) {
    bool want;
    if (q.arrival) {
      if (ref[x] > orc::NONE_R && ref[x] < 0) { c.count("negative_time_skipped"); continue; }
      want = ref[x] > orc::NONE_R && q.time - ref[x] <= l.maxTravel;
    } else want = ref[x] < orc::NONE_F && ref[x] - q.time <= l.maxTravel;
    if (want) reach++;
    if (want != (bool)listed[x]) { c.violation(want ? "missing-stop" : "extra-stop", "stop " + std::to_string(x) + (want ? " is reachable at " + std::to_string(ref[x]) + " but not listed" : " is listed at " + std::to_string(got[x]) + ", reference " + (ref[x] >= orc::NONE_F || ref[x] <= orc::NONE_R ? std::string("none") : std::to_string(ref[x]))), detail(d, q, r)); break; }
    if (want && got[x] != ref[x]) { c.violation(got[x] > ref[x] ? "time-too-late" : "time-too-early", "stop " + std::to_string(x) + " nodeTime " + std::to_string(got[x]) + ", reference " + std::to_string(ref[x]), detail(d, q, r)); break; }
  }
  c.count("stops_compared", ref.size());
  c.count("stops_listed", reach);
  if (reach > 0) { c.count("non_empty_maps"); c.seen(caseHash(d, q)); }
  if (reach > 2 && c.samples.empty()) c.sample({{"query", q.url(d)}, {"stops_listed", reach}, {"stops_total", ref.size()}});
}

void checkAgainstReference(Case& c, const Dataset& d, const Query& q, const json& r) {
  if (!usable(c, d, q, r)) return;
  const bool none = r["status"] == "no_routing_found";
  const std::string want = reasonFor(d, q, none);
  if (!want.empty() && !none) { c.violation("not-" + want, "expected no_routing_found/" + want + ", got success", detail(d, q, r)); return; }
  if (none && r.value("reason", "") != want) { c.violation("reason-" + r.value("reason", std::string("?")) + "-for-" + want, "reason " + r.value("reason", std::string("?")) + ", the most specific true reason is " + want, detail(d, q, r)); return; }
  if (none) c.count("no_routing");
  if (q.kind == Query::ACCESS) {
    if (q.arrival || orc::limits(q).cap <= 0) compareAccess(c, d, q, r);
    return;
  }
  auto adm = d.admitted(q.scenario);
  auto l = orc::limits(q);
  long want0 = 0;
  bool expect = false, known = true;
  if (q.arrival) {
    want0 = orc::latestDeparture(d, adm, q, l, q.time);
    expect = want0 >= 0 && q.time - want0 <= l.maxTravel;
  } else if (l.cap > 0) known = false;
  else {
    want0 = orc::earliestArrival(d, adm, q, l);
    expect = want0 < orc::NONE_F && want0 - q.time <= l.maxTravel;
  }
  if (known && expect == none) c.violation(expect ? "missed-journey" : "impossible-journey", expect ? "a journey exists (" + std::to_string(want0) + "), answer is no_routing_found" : "no admissible journey exists, answer is success", detail(d, q, r));
  if (none) return;
  auto& routes = r["result"]["routes"];
  if (routes.empty()) { c.violation("success-without-route", "status success without any route", detail(d, q, r)); return; }
  const long got = routes[0][q.arrival ? "departureTime" : "arrivalTime"].get<long>();
  if (known && expect && got != want0) c.violation(q.arrival ? "departure-time" : "arrival-time", (q.arrival ? "departure " : "arrival ") + std::to_string(got) + ", reference " + std::to_string(want0), detail(d, q, r));
  if (!q.arrival && l.cap <= 0) {
    const long best = orc::latestDeparture(d, adm, q, l, routes[0]["arrivalTime"].get<long>()), dep = routes[0]["departureTime"].get<long>();
    if (dep != best) c.violation("hidden-waiting", "departure " + std::to_string(dep) + ", the same arrival can be met leaving at " + std::to_string(best), detail(d, q, r));
  }
  for (auto& route : routes) {
    std::vector<orc::Issue> is;
    orc::checkRoute(d, q, adm, route, is);
    c.count("itineraries");
    if (!is.empty()) c.violation(is[0].tag + ":" + is[0].key, is[0].msg, detail(d, q, r));
  }
}

}
using namespace cc;

namespace {

struct Rig {
  Dataset d;
  std::unique_ptr<OsrmStub> stub;
  std::unique_ptr<Sut> sut;
  std::string how;
};

// Most cases use the data set in memory; some go through the cache files and/or the OSRM client so that the loaders
// and the router client take part in every property.
Rig makeRig(Case& c, gen::Cfg cfg, bool allowVariants = true) {
  Rig g;
  SutOptions o;
  const bool files = allowVariants && c.rng.chance(0.12);
  const bool osrm = allowVariants && c.rng.chance(0.06);
  if (!allowVariants) cfg.euclidP = 0;
  if (osrm) { cfg.completeAcc = true; cfg.euclidP = 0; }
  g.d = gen::dataset(c.rng, cfg);
  o.cacheAll = c.rng.chance(0.5);
  if (files) { o.files = true; o.dir = c.scratchDir(); c.count("via_cache_files"); g.how += " files"; }
  if (osrm) {
    g.stub = std::make_unique<OsrmStub>();
    g.stub->setData(g.d);
    o.osrmPort = g.stub->start();
    c.count("via_osrm_client");
    g.how += " osrm";
  }
  if (g.d.euclid) { c.count("with_euclidean_filter"); g.how += " euclid"; }
  g.sut = std::make_unique<Sut>(g.d, o);
  return g;
}

// C01 / C02 / C06 ---------------------------------------------------------------------------
void caseRoutes(Case& c, const char* tag) {
  gen::Cfg k = cfgFor(c);
  if (c.rng.chance(0.1)) k.nullDistances = false;
  Rig g = makeRig(c, k);
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, g.d, false);
    if (c.rng.chance(0.25)) q.alternatives = true;
    json r = g.sut->ask(q);
    c.count("queries");
    if (!usable(c, g.d, q, r)) continue;
    if (r["status"] != "success") { c.count("no_route"); continue; }
    c.count(q.arrival ? "routes_arrival_queries" : "routes_departure_queries");
    auto adm = g.d.admitted(q.scenario);
    if (r["result"]["routes"].empty()) c.violation("success-without-route", "status success without any route", detail(g.d, q, r));
    for (auto& route : r["result"]["routes"]) {
      std::vector<orc::Issue> is;
      orc::checkRoute(g.d, q, adm, route, is);
      c.count("itineraries");
      size_t rides = 0, walks = 0;
      for (auto& s : route["steps"]) { if (s["action"] == "boarding") rides++; if (s["action"] == "walking" && s["type"] == "transfer" && s["travelTime"] != 0) walks++; }
      c.count("rides", rides);
      c.count("transfer_walks", walks);
      c.maxOf("rides_in_one_route", rides);
      if (rides > 1) c.count("itineraries_with_transfer");
      c.seen(caseHash(g.d, q) ^ fnv(route.dump()));
      for (auto& x : is) if (x.tag == tag) c.violation(std::string(tag) + ":" + x.key, x.msg, detail(g.d, q, r));
    }
    if (c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"steps", r["result"]["routes"][0]["steps"].size()}, {"departure", r["result"]["routes"][0]["departureTime"]}, {"arrival", r["result"]["routes"][0]["arrivalTime"]}});
  }
}

// C03 ---------------------------------------------------------------------------------------
void caseC03(Case& c) {
  Rig g = makeRig(c, cfgFor(c));
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, g.d, false);
    if (q.arrival) { q.arrival = false; q.time = std::max(0, q.time - (int)c.rng.range(300, 5400)); }
    q.firstWait = c.rng.chance(0.8) ? 0 : -7;
    if (skipZero(g.d, q)) continue;
    if (c.rng.chance(0.1)) q.alternatives = true;
    auto adm = g.d.admitted(q.scenario);
    auto l = orc::limits(q);
    if (g.d.trips.size() <= 5) {
      std::string why;
      c.count("reference_cross_checks");
      if (!orc::crossCheck(g.d, adm, q, l, why)) throw std::runtime_error("reference disagrees with enumeration: " + why);
    }
    json r = g.sut->ask(q);
    c.count("queries");
    if (!usable(c, g.d, q, r)) continue;
    long best = orc::earliestArrival(g.d, adm, q, l);
    const bool expect = best < orc::NONE_F && best - q.time <= l.maxTravel;
    const bool got = r["status"] == "success";
    if (expect) c.count("expected_success"); else c.count("expected_none");
    if (expect || best < orc::NONE_F) c.seen(caseHash(g.d, q));
    if (expect != got)
      c.violation(expect ? "missed-journey" : "impossible-journey", expect ? "a journey arriving at " + std::to_string(best) + " exists, answer is " + r["status"].get<std::string>() : "no admissible journey exists, answer is success", detail(g.d, q, r));
    else if (got) {
      long a = r["result"]["routes"][0]["arrivalTime"].get<long>();
      if (a != best) c.violation(a > best ? "late-arrival" : "early-arrival", "arrival " + std::to_string(a) + ", earliest possible " + std::to_string(best), detail(g.d, q, r));
      if (c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"arrival", a}, {"reference", best}, {"trips", g.d.trips.size()}});
    }
  }
}

// C04 ---------------------------------------------------------------------------------------
void caseC04(Case& c) {
  Rig g = makeRig(c, cfgFor(c));
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, g.d, false);
    if (!q.arrival) { q.arrival = true; q.time = std::min(DAY32 - 1, q.time + (int)c.rng.range(300, 7200)); }
    if (skipZero(g.d, q)) continue;
    if (c.rng.chance(0.1)) q.alternatives = true;
    auto adm = g.d.admitted(q.scenario);
    auto l = orc::limits(q);
    if (g.d.trips.size() <= 5) {
      std::string why;
      c.count("reference_cross_checks");
      if (!orc::crossCheck(g.d, adm, q, l, why)) throw std::runtime_error("reference disagrees with enumeration: " + why);
    }
    json r = g.sut->ask(q);
    c.count("queries");
    if (!usable(c, g.d, q, r)) continue;
    long best = orc::latestDeparture(g.d, adm, q, l, q.time);
    const bool expect = best >= 0 && q.time - best <= l.maxTravel;
    const bool got = r["status"] == "success";
    if (expect) c.count("expected_success"); else c.count("expected_none");
    if (best > orc::NONE_R) c.seen(caseHash(g.d, q));
    if (expect != got)
      c.violation(expect ? "missed-journey" : "impossible-journey", expect ? "a journey departing at " + std::to_string(best) + " exists, answer is " + r["status"].get<std::string>() : "no admissible journey exists (best departure " + std::to_string(best) + "), answer is success", detail(g.d, q, r));
    else if (got) {
      long a = r["result"]["routes"][0]["departureTime"].get<long>();
      if (a != best) c.violation(a < best ? "early-departure" : "late-departure", "departure " + std::to_string(a) + ", latest possible " + std::to_string(best), detail(g.d, q, r));
      if (c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"departure", a}, {"reference", best}, {"trips", g.d.trips.size()}});
    }
  }
}

// C05 ---------------------------------------------------------------------------------------
void caseC05(Case& c) {
  Rig g = makeRig(c, cfgFor(c));
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, g.d, false);
    if (q.arrival) { q.arrival = false; q.time = std::max(0, q.time - (int)c.rng.range(300, 5400)); }
    else if (c.rng.chance(0.4)) q.time = std::max(0, q.time - (int)c.rng.range(60, 3600)); // leave slack to be squeezed
    if (c.rng.chance(0.6)) q.firstWait = 0;
    if (skipZero(g.d, q)) continue;
    auto adm = g.d.admitted(q.scenario);
    auto l = orc::limits(q);
    json r = g.sut->ask(q);
    c.count("queries");
    if (!usable(c, g.d, q, r)) continue;
    if (r["status"] != "success") continue;
    const long a = r["result"]["routes"][0]["arrivalTime"].get<long>(), dep = r["result"]["routes"][0]["departureTime"].get<long>();
    long best = orc::latestDeparture(g.d, adm, q, l, a);
    if (l.cap > 0) {
      long capped = orc::latestDeparture(g.d, adm, q, l, a, q.time);
      if (capped != best) { c.count("cap_binds_skipped"); continue; }
    }
    c.count("successes");
    if (best > q.time) c.count("with_slack");
    c.seen(caseHash(g.d, q));
    if (dep != best) c.violation(dep < best ? "hidden-waiting" : "late-departure", "departure " + std::to_string(dep) + ", arrival " + std::to_string(a) + " can be met leaving at " + std::to_string(best), detail(g.d, q, r));
    if (c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"requested", q.time}, {"departure", dep}, {"arrival", a}, {"reference_departure", best}});
  }
}

// C07 ---------------------------------------------------------------------------------------
void caseC07(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.flagsP = 0.7;
  Rig g = makeRig(c, k);
  // places without any stop
  for (int i = 0; i < queriesPerCase(c) + 6; i++) {
    Query q = makeQuery(c, g.d, c.rng.chance(0.4));
    if (c.rng.chance(0.35)) {
      // push the request towards the edge of service
      int last = gen::lastClock(g.d);
      q.time = q.arrival ? std::max<long>(0, g.d.trips[c.rng.range(0, g.d.trips.size() - 1)].arr.back() - c.rng.range(0, 2400)) : std::min<long>(DAY32 - 1, last - c.rng.range(-600, 1800));
      q.time = std::max(0, q.time);
    }
    if (c.rng.chance(0.2)) q.maxAccess = (int)c.rng.range(1, 200);
    if (c.rng.chance(0.2)) q.maxEgress = (int)c.rng.range(1, 200);
    gen::settle(g.d, q);
    if (skipZero(g.d, q)) continue;
    json r = g.sut->ask(q);
    c.count("queries");
    if (!usable(c, g.d, q, r)) continue;
    const bool none = r["status"] == "no_routing_found";
    const std::string want = reasonFor(g.d, q, none);
    if (none) { c.count("reason_" + r.value("reason", std::string("?"))); c.seen(caseHash(g.d, q)); }
    else c.count("found");
    if (!want.empty() && !none) c.violation("not-" + want, "expected no_routing_found/" + want + ", got success", detail(g.d, q, r));
    else if (none && r.value("reason", "") != want) c.violation("reason-" + r.value("reason", std::string("?")) + "-for-" + want, "reason " + r.value("reason", std::string("?")) + ", the most specific true reason is " + want, detail(g.d, q, r));
    if (none && c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"reason", r["reason"]}});
  }
}

// C08 / C09 -----------------------------------------------------------------------------------
void caseAccess(Case& c, bool arrival) {
  Rig g = makeRig(c, cfgFor(c));
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, g.d, true);
    if (q.arrival != arrival) { q.arrival = arrival; q.time = std::max(0, std::min<int>(DAY32 - 1, q.time + (arrival ? 1 : -1) * c.rng.range(300, 5400))); }
    if (!arrival) q.firstWait = 0;
    if (skipZero(g.d, q)) continue;
    json r = g.sut->ask(q);
    c.count("queries");
    if (!usable(c, g.d, q, r)) continue;
    compareAccess(c, g.d, q, r);
  }
}

// C10 ---------------------------------------------------------------------------------------
void caseC10(Case& c) {
  gen::Cfg k = cfgFor(c);
  if (c.rng.chance(0.5)) { k.minLines = 5; k.maxLines = 12; k.minNodes = 4; k.maxNodes = 8; }
  if (c.rng.chance(0.15)) { k.minLines = 14; k.maxLines = 24; k.minNodes = 3; k.maxNodes = 5; k.maxPathLen = 4; k.maxTripsPerPath = 2; }
  const bool many = c.rng.chance(0.01); // more lines side by side than alternatives are allowed
  if (many) { k.parallel = k.minLines = k.maxLines = c.rng.range(52, 70); k.minNodes = 2; k.maxNodes = 4; k.maxTripsPerPath = 1; k.maxPathLen = 3; }
  Rig g = makeRig(c, k, !many);
  for (int i = 0; i < (many ? 2 : c.thorough ? 10 : 7); i++) {
    Query q = makeQuery(c, g.d, false);
    if (many) { q.maxTravel = q.maxAccess = q.maxEgress = 0; q.minWait = 0; }
    if (c.rng.chance(0.4)) q.firstWait = 0;
    if (c.rng.chance(0.5)) { q.maxTravel.reset(); q.scenario = 0; }
    if (skipZero(g.d, q)) continue;
    auto adm = g.d.admitted(q.scenario);
    Query qa = q;
    qa.alternatives = true;
    json plain = g.sut->ask(q), alt = g.sut->ask(qa);
    c.count("queries");
    if (!usable(c, g.d, q, plain) || !usable(c, g.d, qa, alt)) continue;
    if (plain["status"] != alt["status"] || plain.value("reason", "") != alt.value("reason", "")) { c.violation("status-differs", "plain " + plain["status"].get<std::string>() + "/" + plain.value("reason", "") + ", with alternatives " + alt["status"].get<std::string>() + "/" + alt.value("reason", ""), detail(g.d, qa, alt)); continue; }
    if (plain["status"] != "success") { c.count("no_route"); continue; }
    auto& routes = alt["result"]["routes"];
    if (routes.empty() || plain["result"]["routes"].size() != 1) { c.violation("route-count", "success without routes", detail(g.d, qa, alt)); continue; }
    if (routes[0] != plain["result"]["routes"][0]) { c.violation("first-differs", "routes[0] differs from the plain answer: " + json::diff(plain["result"]["routes"][0], routes[0]).dump().substr(0, 400), detail(g.d, qa, alt)); continue; }
    if (routes.size() > 50) c.violation("too-many", "more than 50 routes", detail(g.d, qa, alt));
    if (alt["result"].value("totalRoutesCalculated", -1L) < (long)routes.size()) c.violation("total-calculated", "totalRoutesCalculated below the number of routes", detail(g.d, qa, alt));
    std::set<std::vector<std::string>> sets;
    for (size_t n = 0; n < routes.size(); n++) {
      auto ls = orc::linesOf(routes[n]);
      if (!sets.insert(ls).second) { c.violation("duplicate-lines", "route " + std::to_string(n) + " boards the same lines as another returned route", detail(g.d, qa, alt)); break; }
      std::vector<orc::Issue> is;
      orc::checkRoute(g.d, q, adm, routes[n], is);
      for (auto& x : is) if (n > 0 && (x.tag == "C01" || x.tag == "C02" || x.tag == "C06")) { c.violation("alternative-" + x.tag + ":" + x.key, "route " + std::to_string(n) + ": " + x.msg, detail(g.d, qa, alt)); break; }
      if (n > 0) {
        long a0 = routes[0]["arrivalTime"], an = routes[n]["arrivalTime"], d0 = routes[0]["departureTime"], dn = routes[n]["departureTime"];
        if (!q.arrival && an < a0) c.violation("better-alternative", "route " + std::to_string(n) + " arrives at " + std::to_string(an) + ", before routes[0] at " + std::to_string(a0), detail(g.d, qa, alt));
        if (q.arrival && dn > d0) c.violation("better-alternative", "route " + std::to_string(n) + " departs at " + std::to_string(dn) + ", after routes[0] at " + std::to_string(d0), detail(g.d, qa, alt));
      }
    }
    c.count("routes", routes.size());
    c.maxOf("routes_in_one_answer", routes.size());
    if (routes.size() > 1) { c.count("answers_with_alternatives"); c.seen(caseHash(g.d, q)); }
    if (routes.size() > 1 && c.samples.empty()) c.sample({{"query", qa.url(g.d)}, {"routes", routes.size()}, {"totalRoutesCalculated", alt["result"]["totalRoutesCalculated"]}});
  }
}

// C11 ---------------------------------------------------------------------------------------
json summaryOf(const json& r) {
  json s;
  s["status"] = r.value("status", "");
  s["reason"] = r.value("reason", "");
  if (r.value("status", "") == "success") {
    if (r["result"].contains("routes")) s["times"] = {r["result"]["routes"][0]["departureTime"], r["result"]["routes"][0]["arrivalTime"]};
    if (r["result"].contains("nodes")) {
      std::map<std::string, std::pair<long, long>> mp;
      for (auto& n : r["result"]["nodes"]) mp[n["nodeUuid"].get<std::string>()] = {n["nodeTime"].get<long>(), n["totalTravelTime"].get<long>()};
      s["nodes"] = mp;
      s["total"] = r["result"]["totalNodeCount"];
    }
  }
  return s;
}
void caseC11(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.scenarios = 6;
  Rig g = makeRig(c, k);
  std::map<int, std::unique_ptr<Sut>> reduced;
  for (int i = 0; i < queriesPerCase(c); i++) {
    Query q = makeQuery(c, g.d, c.rng.chance(0.4));
    q.scenario = c.rng.range(1, g.d.scenarios.size() - 1);
    if (skipZero(g.d, q)) continue;
    auto adm = g.d.admitted(q.scenario);
    size_t removed = std::count(adm.begin(), adm.end(), 0);
    if (!reduced.count(q.scenario)) {
      if (reduced.size() >= 3) continue;
      SutOptions o;
      if (g.stub) { o.osrmPort = g.stub->port(); }
      reduced[q.scenario] = std::make_unique<Sut>(withoutTrips(g.d, adm), o);
    }
    if (c.rng.chance(0.5)) { // something else first, so that the shared connection cache holds another scenario
      Query o = q;
      o.scenario = 0;
      g.sut->ask(o);
    }
    json a = g.sut->ask(q);
    Query q2 = q;
    q2.scenario = 0;
    json b = reduced[q.scenario]->ask(q2);
    c.count("queries");
    if (!usable(c, g.d, q, a) || !usable(c, g.d, q, b)) continue;
    if (removed) c.count("queries_with_exclusions");
    c.count("trips_excluded", removed);
    json sa = summaryOf(a), sb = summaryOf(b);
    if (a["status"] == "success") { c.count("successes"); if (removed) c.seen(caseHash(g.d, q)); }
    if (sa != sb) c.violation("differs", "restricted scenario: " + sa.dump().substr(0, 300) + " reduced data: " + sb.dump().substr(0, 300), {{"restricted", a}, {"reduced", b}, {"query", q.url(g.d)}, {"dataset", toJson(g.d)}});
    if (removed && c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"trips_excluded", removed}, {"trips", g.d.trips.size()}, {"answer", sa}});
  }
}

// C12 ---------------------------------------------------------------------------------------
bool isClock(const std::string& k) { return k == "departureTime" || k == "arrivalTime" || k == "readyToBoardAt" || k == "nodeTime" || k == "timeOfTrip"; }
void shiftClocks(json& j, long by, long& lo, long& hi) {
  if (j.is_object()) {
    for (auto& [k, v] : j.items()) {
      if (isClock(k) && v.is_number_integer()) {
        long x = v.get<long>();
        lo = std::min(lo, x); hi = std::max(hi, x);
        v = x + by;
      } else shiftClocks(v, by, lo, hi);
    }
  } else if (j.is_array()) for (auto& v : j) shiftClocks(v, by, lo, hi);
}
void caseC12(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.lateP = 0.3;
  Rig g = makeRig(c, k);
  int lo = 1 << 30, hi = 0;
  for (auto& t : g.d.trips) for (size_t i = 0; i < t.arr.size(); i++) { lo = std::min({lo, t.arr[i], t.dep[i]}); hi = std::max({hi, t.arr[i], t.dep[i]}); }
  if (hi >= DAY32) { c.count("data_beyond_32h_skipped"); return; }
  for (int s = 0; s < 3; s++) {
    // shifts: to the extremes, by whole hours, by odd seconds
    long delta;
    double x = c.rng.next() % 1000 / 1000.0;
    if (x < 0.25) delta = -(long)c.rng.range(std::max(0, lo - 4000), lo);
    else if (x < 0.5) delta = c.rng.range(std::max(0, DAY32 - 1 - hi - 4000), DAY32 - 1 - hi);
    else if (x < 0.7) delta = 3600 * c.rng.range(-(lo / 3600), (DAY32 - 1 - hi) / 3600);
    else delta = c.rng.range(-lo, DAY32 - 1 - hi);
    Dataset d2 = g.d;
    for (auto& t : d2.trips) for (size_t i = 0; i < t.arr.size(); i++) { t.arr[i] += delta; t.dep[i] += delta; }
    SutOptions o;
    if (g.stub) o.osrmPort = g.stub->port();
    Sut sut2(d2, o);
    for (int i = 0; i < (c.thorough ? 8 : 6); i++) {
      Query q = makeQuery(c, g.d, c.rng.chance(0.4));
      if (c.rng.chance(0.15)) q.alternatives = q.kind == Query::ROUTE;
      if (c.rng.chance(0.15)) { // sit on an hour boundary in one of the frames
        long base = q.time + (c.rng.chance(0.5) ? delta : 0);
        q.time += (base + 1800) / 3600 * 3600 - base;
      }
      if (q.time < 0 || q.time >= DAY32 || q.time + delta < 0 || q.time + delta >= DAY32) { c.count("request_out_of_range_skipped"); continue; }
      Query q2 = q;
      q2.time = q.time + delta;
      json a = g.sut->ask(q), b = sut2.ask(q2);
      c.count("pairs");
      if (!usable(c, g.d, q, a) || !usable(c, d2, q2, b)) continue;
      long la = 1 << 30, ha = -1, lb = 1 << 30, hb = -1;
      json b0 = b, a2 = a;
      shiftClocks(b0, -delta, lb, hb);
      shiftClocks(a2, delta, la, ha);
      long mn = std::min({la, la + delta, lb, lb - delta}), mx = std::max({ha, ha + delta, hb, hb - delta});
      if (mn < 0 || mx >= DAY32) { c.count("answer_out_of_range_skipped"); continue; }
      if (a["status"] == "success") { c.count("successes"); c.seen(caseHash(g.d, q) ^ (uint64_t)delta * 31); }
      if ((q.time / 3600) != ((q.time + delta) / 3600)) c.count("pairs_in_other_hour");
      if (a != b0) c.violation("not-invariant", "shift by " + std::to_string(delta) + " changes the answer: " + json::diff(a, b0).dump().substr(0, 500), {{"answer", a}, {"shifted_answer", b}, {"delta", delta}, {"query", q.url(g.d)}, {"dataset", toJson(g.d)}});
      if (a["status"] == "success" && c.samples.empty()) c.sample({{"query", q.url(g.d)}, {"delta", delta}, {"clock_range", {la, ha}}});
    }
  }
}
} // namespace

// C13, in process: the same request on a used and on a fresh data set object
void historyInProcess(Case& c) {
  gen::Cfg k = cfgFor(c);
  Dataset d = gen::dataset(c.rng, k);
  SutOptions o;
  o.cacheAll = c.rng.chance(0.5);
  Sut used(d, o);
  std::vector<Query> pool;
  for (int i = 0; i < 6; i++) {
    if (i && c.rng.chance(0.6)) { pool.push_back(relatedQuery(c, d, c.rng.pick(pool))); continue; }
    Query q = makeQuery(c, d, c.rng.chance(0.35));
    if (q.kind == Query::ROUTE && c.rng.chance(0.3)) q.kind = Query::SUMMARY;
    if (q.kind != Query::ACCESS && c.rng.chance(0.35)) q.alternatives = true;
    pool.push_back(q);
  }
  // The reference answers come before, after or in the middle of the history, so that what the process itself remembers
  // (rather than the data set object) is not always refreshed by them
  std::map<int, json> fresh;
  auto reference = [&](int x) {
    if (fresh.count(x)) return;
    SutOptions o2;
    o2.cacheAll = c.rng.chance(0.5);
    Sut f(d, o2);
    fresh[x] = f.ask(pool[x]);
  };
  const int when = c.rng.range(0, 3);
  if (when == 0) for (size_t x = 0; x < pool.size(); x++) reference(x);
  const int len = c.thorough ? 30 : 18;
  std::string hist;
  std::vector<std::tuple<int, std::string, json>> told;
  for (int i = 0; i < len; i++) {
    int x = c.rng.range(0, pool.size() - 1);
    if (c.rng.chance(0.15)) { // failing / invalid requests in between
      auto p = pool[x].params(d);
      if (c.rng.chance(0.5)) p[p.size() - 1].second = "abc";
      else for (auto& y : p) if (y.first == "scenario_id") y.second = "00000000-0000-4000-8000-000000000000";
      used.askParams(pool[x].kind, p);
      hist += "!";
      c.count("invalid_requests");
    }
    json a = used.ask(pool[x]);
    hist += std::to_string(x);
    if (when == 1) reference(x);
    told.emplace_back(x, hist, a);
  }
  for (auto& [x, h, a] : told) {
    reference(x);
    c.count("comparisons");
    if (a["status"] == "success") c.seen(caseHash(d, pool[x]) ^ fnv(h));
    if (a != fresh[x]) { json qs = json::array(); for (auto& y : pool) qs.push_back(y.url(d)); c.violation("history-dependent", "answer after history " + h + " differs from a fresh start: " + json::diff(fresh[x], a).dump().substr(0, 400), {{"fresh", fresh[x]}, {"after_history", a}, {"history", h}, {"query", pool[x].url(d)}, {"queries", qs}, {"dataset", toJson(d)}}); break; }
  }
  c.sample({{"history", hist}, {"queries", {pool[0].url(d), pool[1].url(d)}}});
}

bool calcCheck(const std::string& prop, RunSpec& s) {
  s.prop = prop;
  s.batch = 40;
  if (prop == "C01") s.fn = [](Case& c) { caseRoutes(c, "C01"); };
  else if (prop == "C02") s.fn = [](Case& c) { caseRoutes(c, "C02"); };
  else if (prop == "C06") s.fn = [](Case& c) { caseRoutes(c, "C06"); };
  else if (prop == "C03") s.fn = caseC03;
  else if (prop == "C04") s.fn = caseC04;
  else if (prop == "C05") s.fn = caseC05;
  else if (prop == "C07") s.fn = caseC07;
  else if (prop == "C08") s.fn = [](Case& c) { caseAccess(c, false); };
  else if (prop == "C09") s.fn = [](Case& c) { caseAccess(c, true); };
  else if (prop == "C10") s.fn = caseC10;
  else if (prop == "C11") s.fn = caseC11;
  else if (prop == "C12") s.fn = caseC12;
  else if (prop == "C13calc") s.fn = historyInProcess;
  else return false;
  return true;
}
