#include "runner.hpp"
#include "oracle.hpp"
#include <algorithm>
#include <climits>
#include <functional>
#include <unordered_map>

namespace orc {
using m::Dataset;
using m::Query;

Limits limits(const Query& q) {
  return {q.eMinWait(), q.eMaxTravel(), q.eMaxAccess(), q.eMaxEgress(), q.eMaxTransfer(), q.eFirstWait()};
}

int nodeByUuid(const Dataset& d, const std::string& u) {
  for (size_t i = 0; i < d.nodes.size(); i++) if (d.nodes[i].uuid == u) return i;
  return -1;
}
static int tripByUuid(const Dataset& d, const std::string& u) {
  for (size_t i = 0; i < d.trips.size(); i++) if (d.trips[i].uuid == u) return i;
  return -1;
}
static const m::Acc* accOf(const Dataset& d, int place, int node) {
  for (auto& a : d.places[place].acc) if (a.node == node) return &a;
  return nullptr;
}

std::vector<std::string> linesOf(const json& route) {
  std::vector<std::string> r;
  for (auto& s : route.at("steps")) if (s.at("action") == "boarding") r.push_back(s.at("lineUuid").get<std::string>());
  std::sort(r.begin(), r.end());
  return r;
}

// ---------------------------------------------------------------------------------------------
void checkRoute(const Dataset& d, const Query& q, const std::vector<char>& admitted, const json& r, std::vector<Issue>& out) {
  const InHarness mark;
  auto bad = [&](const char* tag, const std::string& key, const std::string& msg) { out.push_back({tag, key, msg}); };
  const Limits L = limits(q);
  auto I = [&](const json& o, const char* k) -> long {
    auto it = o.find(k);
    if (it == o.end() || !it->is_number_integer()) { bad("C06", std::string("field-missing-") + k, std::string("field ") + k + " missing or not an integer: " + o.dump().substr(0, 300)); return LONG_MIN / 4; }
    return it->get<long>();
  };
  auto S = [&](const json& o, const char* k) -> std::string {
    auto it = o.find(k);
    if (it == o.end() || !it->is_string()) { bad("DATA", std::string("field-missing-") + k, std::string("field ") + k + " missing"); return ""; }
    return it->get<std::string>();
  };
  auto eq = [&](const char* tag, const std::string& key, long got, long want) {
    if (got != want) bad(tag, key, key + ": reported " + std::to_string(got) + ", expected " + std::to_string(want));
  };
  if (!r.contains("steps") || !r["steps"].is_array()) { bad("C01", "no-steps", "route without steps"); return; }
  const json& st = r["steps"];
  const long dep = I(r, "departureTime"), arr = I(r, "arrivalTime");

  // grammar: access (board unboard [transfer])+ egress
  size_t n = st.size(), p = 0;
  auto isWalk = [&](size_t i, const char* t) { return i < n && st[i].value("action", "") == "walking" && st[i].value("type", "") == t; };
  auto isA = [&](size_t i, const char* a) { return i < n && st[i].value("action", "") == a; };
  if (!isWalk(0, "access")) { bad("C01", "shape", "first step is not the access walk"); return; }
  struct Leg { int trip, i, j; long dep, arr; bool ok; };
  std::vector<Leg> legs;
  std::vector<size_t> boardStep, walkStep; // walkStep[k]: the walk before leg k; walkStep[last+1]: egress
  walkStep.push_back(0);
  p = 1;
  bool shapeOk = true;
  while (true) {
    if (!isA(p, "boarding") || !isA(p + 1, "unboarding")) { shapeOk = false; break; }
    boardStep.push_back(p);
    p += 2;
    if (isWalk(p, "transfer")) { walkStep.push_back(p); p++; continue; }
    if (isWalk(p, "egress")) { walkStep.push_back(p); p++; if (p != n) shapeOk = false; break; }
    shapeOk = false;
    break;
  }
  if (!shapeOk) {
    std::string sh;
    for (auto& s : st) sh += s.value("action", std::string("?")) + (s.contains("type") ? ":" + s.value("type", std::string("?")) : "") + " ";
    bad("C01", "shape", "steps do not alternate walks and rides: " + sh);
    return;
  }
  const size_t nl = boardStep.size();
  bool anyTransferable = false;

  // legs
  for (size_t k = 0; k < nl; k++) {
    const json &b = st[boardStep[k]], &u = st[boardStep[k] + 1];
    Leg leg{-1, -1, -1, I(b, "departureTime"), I(u, "arrivalTime"), false};
    const std::string tu = S(b, "tripUuid");
    leg.trip = tripByUuid(d, tu);
    if (leg.trip < 0) { bad("C01", "unknown-trip", "boards trip " + tu + " which is not in the data"); return; }
    const auto& t = d.trips[leg.trip];
    const auto& pa = d.paths[t.path];
    const auto& li = d.lines[pa.line];
    if (S(u, "tripUuid") != tu) bad("C01", "unboard-other-trip", "alights trip " + S(u, "tripUuid") + " after boarding " + tu);
    if (d.transferable(t)) anyTransferable = true;
    if (!admitted[leg.trip]) bad("C02", "not-admitted", "rides trip " + tu + " which the scenario does not admit");
    const int bn = nodeByUuid(d, S(b, "nodeUuid")), un = nodeByUuid(d, S(u, "nodeUuid"));
    if (bn < 0 || un < 0) { bad("C01", "unknown-stop", "boards/alights at a stop that is not in the data"); return; }
    const long bs = I(b, "stopSequenceInTrip"), us = I(u, "stopSequenceInTrip");
    // Some pair i<j with matching stops, times and permissions must exist; the reported sequence numbers pick one when they fit
    int np = pa.nodes.size();
    auto okB = [&](int i) { return i >= 0 && i < np - 1 && pa.nodes[i] == bn && t.board[i] == 1 && t.dep[i] == leg.dep; };
    auto okU = [&](int j) { return j > 0 && j < np && pa.nodes[j] == un && t.unboard[j] == 1 && t.arr[j] == leg.arr; };
    if (okB(bs - 1) && okU(us - 1) && bs < us) { leg.i = bs - 1; leg.j = us - 1; }
    else for (int i = 0; i < np && leg.i < 0; i++) if (okB(i)) for (int j = i + 1; j < np; j++) if (okU(j)) { leg.i = i; leg.j = j; break; }
    if (leg.i < 0) {
      std::string tt;
      for (int i = 0; i < np; i++) tt += std::to_string(pa.nodes[i]) + "@" + std::to_string(t.arr[i]) + "/" + std::to_string(t.dep[i]) + (t.board[i] ? "b" : "-") + (t.unboard[i] ? "u" : "-") + " ";
      bad("C01", "ride-not-scheduled", "ride " + std::to_string(k) + " board stop " + std::to_string(bn) + "@" + std::to_string(leg.dep) + " alight stop " + std::to_string(un) + "@" + std::to_string(leg.arr) + " not possible on trip " + tt);
      leg.i = 0; leg.j = np - 1; leg.ok = false;
    } else {
      leg.ok = true;
      if (leg.i + 1 != bs || leg.j + 1 != us) bad("DATA", "sequence", "stopSequenceInTrip " + std::to_string(bs) + "/" + std::to_string(us) + " does not match positions " + std::to_string(leg.i + 1) + "/" + std::to_string(leg.j + 1));
      if (I(b, "legSequenceInTrip") != leg.i + 1 || I(u, "legSequenceInTrip") != leg.j) bad("DATA", "leg-sequence", "legSequenceInTrip does not match");
      // distances
      long dist = 0; bool known = true;
      for (int s = leg.i; s < leg.j; s++) { if (s >= (int)pa.segDist.size() || pa.segDist[s] < 0) known = false; else dist += pa.segDist[s]; }
      if (known && u.contains("inVehicleDistance") && u["inVehicleDistance"].is_number()) eq("DIST", "leg-distance", I(u, "inVehicleDistance"), dist);
      eq("C06", "leg-in-vehicle-time", I(u, "inVehicleTime"), leg.arr - leg.dep);
    }
    for (const json* o : {&b, &u}) {
      if (S(*o, "lineUuid") != li.uuid || S(*o, "lineShortname") != li.shortname || S(*o, "lineLongname") != li.longname) bad("DATA", "line-name", "wrong line fields for trip " + tu);
      if (S(*o, "agencyUuid") != d.agencies[li.agency].uuid || S(*o, "agencyAcronym") != d.agencies[li.agency].acronym || S(*o, "agencyName") != d.agencies[li.agency].name) bad("DATA", "agency-name", "wrong agency fields for trip " + tu);
      if (S(*o, "mode") != li.mode) bad("DATA", "mode", "wrong mode for trip " + tu);
      if (S(*o, "pathUuid") != pa.uuid) bad("DATA", "path", "wrong path for trip " + tu);
      const int nn = o == &b ? bn : un;
      if (S(*o, "nodeCode") != d.nodes[nn].code || S(*o, "nodeName") != d.nodes[nn].name) bad("DATA", "node-name", "wrong node code/name");
      if (o->contains("nodeCoordinates")) {
        auto& c = (*o)["nodeCoordinates"];
        if (!c.is_array() || c.size() != 2 || std::abs(c[0].get<double>() * 1e6 - d.nodes[nn].lonE6) > 0.51 || std::abs(c[1].get<double>() * 1e6 - d.nodes[nn].latE6) > 0.51) bad("DATA", "node-coordinates", "wrong coordinates " + c.dump());
      }
    }
    legs.push_back(leg);
  }
  auto legBoardNode = [&](size_t k) { return nodeByUuid(d, st[boardStep[k]].value("nodeUuid", "")); };
  auto legUnboardNode = [&](size_t k) { return nodeByUuid(d, st[boardStep[k] + 1].value("nodeUuid", "")); };

  // walks
  struct W { long time, dist, dep, arr; };
  std::vector<W> w;
  for (size_t k = 0; k <= nl; k++) {
    const json& s = st[walkStep[k]];
    W x{I(s, "travelTime"), I(s, "distance"), I(s, "departureTime"), I(s, "arrivalTime")};
    if (x.arr - x.dep != x.time) bad("C06", "walk-clock", "walk arrival - departure differs from its travelTime: " + s.dump());
    w.push_back(x);
  }
  // durations against the data
  {
    const m::Acc* a = accOf(d, q.origin, legBoardNode(0));
    if (!a || a->time != w[0].time) bad("C01", "access-walk", "access walk of " + std::to_string(w[0].time) + " s to stop " + std::to_string(legBoardNode(0)) + ", the router offers " + (a ? std::to_string(a->time) : "nothing"));
    else eq("DIST", "access-distance", w[0].dist, a->dist);
    if (w[0].time > L.maxAcc) bad("C02", "max-access", "access walk " + std::to_string(w[0].time) + " > " + std::to_string(L.maxAcc));
    const m::Acc* e = accOf(d, q.destination, legUnboardNode(nl - 1));
    if (!e || e->time != w[nl].time) bad("C01", "egress-walk", "egress walk of " + std::to_string(w[nl].time) + " s from stop " + std::to_string(legUnboardNode(nl - 1)) + ", the router offers " + (e ? std::to_string(e->time) : "nothing"));
    else eq("DIST", "egress-distance", w[nl].dist, e->dist);
    if (w[nl].time > L.maxEgr) bad("C02", "max-egress", "egress walk " + std::to_string(w[nl].time) + " > " + std::to_string(L.maxEgr));
    // the limits bound the walks as they are, whatever the answer says of them
    if (a && a->time > L.maxAcc) bad("C02", "max-access", "access walk takes " + std::to_string(a->time) + " > " + std::to_string(L.maxAcc));
    if (e && e->time > L.maxEgr) bad("C02", "max-egress", "egress walk takes " + std::to_string(e->time) + " > " + std::to_string(L.maxEgr));
    if (!q.arrival && a && legs[0].dep - a->time < q.time) bad("C02", "leaves-early", "first boarding " + std::to_string(legs[0].dep) + " takes leaving before " + std::to_string(q.time) + " (walk of " + std::to_string(a->time) + ")");
    if (q.arrival && e && legs[nl - 1].arr + e->time > q.time) bad("C02", "arrives-late", "last ride ends at " + std::to_string(legs[nl - 1].arr) + ", a walk of " + std::to_string(e->time) + " before " + std::to_string(q.time) + " is needed");
  }
  for (size_t k = 1; k < nl; k++) {
    int from = legUnboardNode(k - 1), to = legBoardNode(k);
    long want = -1, wdist = 0;
    if (from == to) want = 0;
    bool match = from == to && w[k].time == 0;
    for (auto& f : d.nodes[from].foot) if (f.to == to) { want = f.time; if (f.time == w[k].time) { match = true; wdist = f.dist; } }
    if (!match) bad("C01", "transfer-walk", "transfer of " + std::to_string(w[k].time) + " s from stop " + std::to_string(from) + " to stop " + std::to_string(to) + ", footpath data " + (want < 0 ? std::string("has none") : std::to_string(want)));
    else eq("DIST", "transfer-distance", w[k].dist, wdist);
    if (want > L.maxXfer && w[k].time <= L.maxXfer) bad("C02", "max-transfer", "transfer walk takes " + std::to_string(want) + " > " + std::to_string(L.maxXfer));
    if (w[k].time > L.maxXfer) bad("C02", "max-transfer", "transfer walk " + std::to_string(w[k].time) + " > " + std::to_string(L.maxXfer));
  }
  // executability in time
  for (size_t k = 0; k < nl; k++) {
    const long mw = d.minWait(d.trips[legs[k].trip], L.mw);
    const long at = k == 0 ? dep + w[0].time : legs[k - 1].arr + w[k].time; // independent of the walk's own clock fields
    if (legs[k].dep < at + mw) bad("C01", "missed-connection", "boards at " + std::to_string(legs[k].dep) + " but is at the stop at " + std::to_string(at) + " and must wait " + std::to_string(mw));
    if (legs[k].arr < legs[k].dep) bad("C01", "backwards-ride", "ride arrives before it departs");
    // C06 chaining
    if (k > 0 && w[k].dep != legs[k - 1].arr) bad("C06", "walk-start", "transfer walk starts at " + std::to_string(w[k].dep) + ", previous ride ends at " + std::to_string(legs[k - 1].arr));
    const json& s = st[walkStep[k]];
    eq("C06", "ready-to-board", I(s, "readyToBoardAt"), w[k].arr + mw);
    eq("C06", "leg-waiting", I(st[boardStep[k]], "waitingTime"), legs[k].dep - w[k].arr);
  }
  eq("C06", "egress-start", w[nl].dep, legs[nl - 1].arr);
  eq("C06", "departure-vs-access", w[0].dep, dep);
  eq("C06", "arrival-vs-egress", w[nl].arr, arr);

  // C02 limits
  if (!q.arrival) {
    if (dep < q.time) bad("C02", "leaves-early", "departure " + std::to_string(dep) + " before requested " + std::to_string(q.time));
    if (legs[0].dep - w[0].time < q.time) bad("C02", "leaves-early", "first boarding " + std::to_string(legs[0].dep) + " is before the requested departure plus the access walk");
    if (legs[nl - 1].arr + w[nl].time - q.time > L.maxTravel) bad("C02", "max-travel", "arrives " + std::to_string(arr) + ", more than max_travel_time after " + std::to_string(q.time));
    if (L.cap > 0 && legs[0].dep - (q.time + w[0].time) > L.cap)
      bad("C02", "first-wait", "first boarding " + std::to_string(legs[0].dep) + " is " + std::to_string(legs[0].dep - q.time - w[0].time) + " s after the earliest presence at the stop, cap " + std::to_string(L.cap));
  } else {
    if (legs[nl - 1].arr + w[nl].time > q.time || arr > q.time) bad("C02", "arrives-late", "arrival " + std::to_string(arr) + " after requested " + std::to_string(q.time));
    if ((long)q.time - dep > L.maxTravel) bad("C02", "max-travel", "departs " + std::to_string(dep) + ", more than max_travel_time before " + std::to_string(q.time));
    if (dep < 0) bad("C02", "negative-departure", "departs before 0:00");
  }

  // C06 totals
  long walkT = 0, walkD = 0, xferT = 0, xferD = 0, inV = 0, inVD = 0, waitAll = 0, boardings = 0;
  bool distKnown = true;
  for (size_t k = 0; k <= nl; k++) { walkT += w[k].time; walkD += w[k].dist; if (k > 0 && k < nl) { xferT += w[k].time; xferD += w[k].dist; } }
  // rides on "transferable" pseudo-lines are walks between stops, not vehicles: they count as transfer walking
  for (size_t k = 0; k < nl; k++) {
    auto& t = d.trips[legs[k].trip];
    const bool asWalk = d.transferable(t);
    const long ride = legs[k].arr - legs[k].dep;
    if (asWalk) { walkT += ride; xferT += ride; } else inV += ride;
    waitAll += legs[k].dep - w[k].arr;
    const json& u = st[boardStep[k] + 1];
    if (u.contains("inVehicleDistance") && u["inVehicleDistance"].is_number() && u["inVehicleDistance"].get<long>() >= 0) {
      const long dd = u["inVehicleDistance"].get<long>();
      if (asWalk) { walkD += dd; xferD += dd; } else inVD += dd;
    } else distKnown = false;
    for (int s = legs[k].i; s < legs[k].j; s++) if (s >= (int)d.paths[t.path].segDist.size() || d.paths[t.path].segDist[s] < 0) distKnown = false;
    if (!asWalk) boardings++;
  }
  eq("C06", "totalTravelTime", I(r, "totalTravelTime"), arr - dep);
  eq("C06", "totalInVehicleTime", I(r, "totalInVehicleTime"), inV);
  eq("C06", "totalWaitingTime", I(r, "totalWaitingTime"), waitAll);
  eq("C06", "firstWaitingTime", I(r, "firstWaitingTime"), legs[0].dep - w[0].arr);
  eq("C06", "waiting-split", I(r, "totalWaitingTime"), I(r, "firstWaitingTime") + I(r, "transferWaitingTime"));
  eq("C06", "accessTravelTime", I(r, "accessTravelTime"), w[0].time);
  eq("C06", "egressTravelTime", I(r, "egressTravelTime"), w[nl].time);
  eq("C06", "accessDistance", I(r, "accessDistance"), w[0].dist);
  eq("C06", "egressDistance", I(r, "egressDistance"), w[nl].dist);
  if (distKnown) eq("C06", "totalInVehicleDistance", I(r, "totalInVehicleDistance"), inVD);
  eq("C06", "sum-identity", I(r, "totalTravelTime"), I(r, "accessTravelTime") + I(r, "egressTravelTime") + I(r, "transferWalkingTime") + I(r, "totalInVehicleTime") + I(r, "totalWaitingTime"));
  eq("C06", "transferWalkingTime", I(r, "transferWalkingTime"), xferT);
  eq("C06", "totalNonTransitTravelTime", I(r, "totalNonTransitTravelTime"), walkT);
  if (distKnown) {
    eq("C06", "transferWalkingDistance", I(r, "transferWalkingDistance"), xferD);
    eq("C06", "totalNonTransitDistance", I(r, "totalNonTransitDistance"), walkD);
    eq("C06", "totalDistance", I(r, "totalDistance"), walkD + inVD);
  }
  eq("C06", "numberOfBoardings", I(r, "numberOfBoardings"), boardings);
  if (boardings > 0) eq("C06", "numberOfTransfers", I(r, "numberOfTransfers"), boardings - 1);
  // independent of any counter: the whole route must add up from its own steps
  eq("C06", "steps-add-up", arr - dep, walkT + inV + waitAll);
}

// ---------------------------------------------------------------------------------------------
Forward forward(const Dataset& d, const std::vector<char>& adm, int place, long time, const Limits& l) {
  const InHarness mark;
  const size_t N = d.nodes.size();
  Forward f{std::vector<long>(N, NONE_F), std::vector<long>(N, NONE_F)};
  std::vector<long> acc(N, NONE_F);  // at the stop by the access walk
  std::vector<long> xfer(N, NONE_F); // at the stop after a transfer walk
  for (auto& a : d.places[place].acc) if (a.time <= l.maxAcc) acc[a.node] = std::min(acc[a.node], time + a.time);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t ti = 0; ti < d.trips.size(); ti++) {
      if (!adm[ti]) continue;
      const auto& t = d.trips[ti];
      const auto& p = d.paths[t.path];
      const long mw = d.minWait(t, l.mw);
      bool on = false;
      for (size_t k = 0; k < p.nodes.size(); k++) {
        if (on && t.unboard[k] == 1) {
          long& al = f.alight[p.nodes[k]];
          if (t.arr[k] < al) {
            al = t.arr[k];
            changed = true;
            for (auto& fp : d.nodes[p.nodes[k]].foot)
              if (fp.time <= l.maxXfer && t.arr[k] + fp.time < xfer[fp.to]) xfer[fp.to] = t.arr[k] + fp.time;
          }
        }
        if (!on && k + 1 < p.nodes.size() && t.board[k] == 1) {
          const int nd = p.nodes[k];
          if (acc[nd] < NONE_F && t.dep[k] - mw >= acc[nd] && (l.cap <= 0 || t.dep[k] - acc[nd] <= l.cap)) on = true;
          if (xfer[nd] < NONE_F && t.dep[k] - mw >= xfer[nd]) on = true;
        }
      }
    }
  }
  for (size_t i = 0; i < N; i++) f.stand[i] = std::min(acc[i], xfer[i]);
  return f;
}

Reverse reverse(const Dataset& d, const std::vector<char>& adm, int place, long time, const Limits& l) {
  const InHarness mark;
  const size_t N = d.nodes.size();
  Reverse r{std::vector<long>(N, NONE_R)};
  std::vector<long> alightBy(N, NONE_R);
  for (auto& a : d.places[place].acc) if (a.time <= l.maxEgr) alightBy[a.node] = std::max(alightBy[a.node], time - a.time);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t ti = 0; ti < d.trips.size(); ti++) {
      if (!adm[ti]) continue;
      const auto& t = d.trips[ti];
      const auto& p = d.paths[t.path];
      const long mw = d.minWait(t, l.mw);
      bool on = false;
      for (int k = (int)p.nodes.size() - 1; k >= 0; k--) {
        if (on && t.board[k] == 1 && t.dep[k] - mw > r.board[p.nodes[k]]) {
          r.board[p.nodes[k]] = t.dep[k] - mw;
          changed = true;
        }
        if (!on && k > 0 && t.unboard[k] == 1) {
          if (t.arr[k] <= alightBy[p.nodes[k]]) on = true;
          if (!on) for (auto& fp : d.nodes[p.nodes[k]].foot)
            if (fp.time <= l.maxXfer && r.board[fp.to] > NONE_R && t.arr[k] <= r.board[fp.to] - fp.time) { on = true; break; }
        }
      }
    }
  }
  return r;
}

long earliestArrival(const Dataset& d, const std::vector<char>& adm, const Query& q, const Limits& l) {
  const InHarness mark;
  Forward f = forward(d, adm, q.origin, q.time, l);
  long best = NONE_F;
  for (auto& a : d.places[q.destination].acc) if (a.time <= l.maxEgr && f.alight[a.node] < NONE_F) best = std::min(best, f.alight[a.node] + a.time);
  return best;
}
long latestDeparture(const Dataset& d, const std::vector<char>& adm, const Query& q, const Limits& l, long deadline, long capFrom) {
  const InHarness mark;
  const size_t N = d.nodes.size();
  if (capFrom < 0) {
    Reverse r = reverse(d, adm, q.destination, deadline, l);
    long best = NONE_R;
    for (auto& a : d.places[q.origin].acc) if (a.time <= l.maxAcc && r.board[a.node] > NONE_R) best = std::max(best, r.board[a.node] - a.time);
    return best;
  }
  // With the first-wait cap: the first boarding must lie in [capFrom+acc+mw, capFrom+acc+cap]
  Reverse r = reverse(d, adm, q.destination, deadline, l);
  std::vector<long> alightBy(N, NONE_R);
  for (auto& a : d.places[q.destination].acc) if (a.time <= l.maxEgr) alightBy[a.node] = std::max(alightBy[a.node], deadline - a.time);
  for (size_t i = 0; i < N; i++) for (auto& fp : d.nodes[i].foot) if (fp.time <= l.maxXfer && r.board[fp.to] > NONE_R) alightBy[i] = std::max(alightBy[i], r.board[fp.to] - fp.time);
  long best = NONE_R;
  for (size_t ti = 0; ti < d.trips.size(); ti++) {
    if (!adm[ti]) continue;
    const auto& t = d.trips[ti];
    const auto& p = d.paths[t.path];
    const long mw = d.minWait(t, l.mw);
    bool on = false;
    for (int k = (int)p.nodes.size() - 1; k >= 0; k--) {
      if (on && t.board[k] == 1)
        for (auto& a : d.places[q.origin].acc)
          if (a.node == p.nodes[k] && a.time <= l.maxAcc) {
            long v = t.dep[k] - mw - a.time;
            if (v >= capFrom && (l.cap <= 0 || t.dep[k] - (capFrom + a.time) <= l.cap)) best = std::max(best, v);
          }
      if (!on && k > 0 && t.unboard[k] == 1 && t.arr[k] <= alightBy[p.nodes[k]]) on = true;
    }
  }
  return best;
}

bool anyAccess(const Dataset& d, int place, int max) {
  for (auto& a : d.places[place].acc) if (a.time <= max) return true;
  return false;
}
bool serviceFrom(const Dataset& d, const std::vector<char>& adm, int place, long time, const Limits& l) {
  const InHarness mark;
  for (size_t ti = 0; ti < d.trips.size(); ti++) {
    if (!adm[ti]) continue;
    const auto& t = d.trips[ti];
    const auto& p = d.paths[t.path];
    const long mw = d.minWait(t, l.mw);
    for (size_t k = 0; k + 1 < p.nodes.size(); k++) {
      if (t.board[k] != 1) continue;
      for (auto& a : d.places[place].acc) {
        if (a.node != p.nodes[k] || a.time > l.maxAcc) continue;
        if (t.dep[k] - mw >= time + a.time && (l.cap <= 0 || t.dep[k] - (time + a.time) <= l.cap) && t.dep[k] - time <= l.maxTravel) return true;
      }
    }
  }
  return false;
}
bool serviceTo(const Dataset& d, const std::vector<char>& adm, int place, long time, const Limits& l) {
  const InHarness mark;
  for (size_t ti = 0; ti < d.trips.size(); ti++) {
    if (!adm[ti]) continue;
    const auto& t = d.trips[ti];
    const auto& p = d.paths[t.path];
    for (size_t k = 1; k < p.nodes.size(); k++) {
      if (t.unboard[k] != 1) continue;
      for (auto& a : d.places[place].acc)
        if (a.node == p.nodes[k] && a.time <= l.maxEgr && t.arr[k] <= time - a.time && time - t.arr[k] <= l.maxTravel) return true;
    }
  }
  return false;
}

// ---------------------------------------------------------------------------------------------
bool crossCheck(const Dataset& d, const std::vector<char>& adm, const Query& q, const Limits& l0, std::string& why) {
  const InHarness mark;
  Limits l = l0;
  l.cap = -1;
  const size_t N = d.nodes.size();
  const int maxLegs = 5;
  if (!q.arrival) {
    std::vector<long> best(N, NONE_F);
    long budget = 2000000;
    std::function<void(int, long, int)> ride = [&](int node, long at, int depth) {
      if (depth > maxLegs || --budget < 0) return;
      for (size_t ti = 0; ti < d.trips.size(); ti++) {
        if (!adm[ti]) continue;
        const auto& t = d.trips[ti];
        const auto& p = d.paths[t.path];
        if ((budget -= 1 + (long)p.nodes.size() / 8) < 0) return;
        for (size_t i = 0; i + 1 < p.nodes.size(); i++) {
          if (p.nodes[i] != node || t.board[i] != 1 || t.dep[i] - d.minWait(t, l.mw) < at) continue;
          for (size_t j = i + 1; j < p.nodes.size(); j++) {
            if (--budget < 0) return;
            if (t.unboard[j] != 1) continue;
            best[p.nodes[j]] = std::min(best[p.nodes[j]], (long)t.arr[j]);
            for (auto& fp : d.nodes[p.nodes[j]].foot) if (fp.time <= l.maxXfer) ride(fp.to, t.arr[j] + fp.time, depth + 1);
          }
        }
      }
    };
    for (auto& a : d.places[q.origin].acc) if (a.time <= l.maxAcc) ride(a.node, (long)q.time + a.time, 1);
    if (budget < 0) return true;
    Forward f = forward(d, adm, q.origin, q.time, l);
    for (size_t i = 0; i < N; i++)
      if (f.alight[i] > best[i]) { why = "reference misses an arrival at stop " + std::to_string(i); return false; }
      else if (f.alight[i] < best[i] && (int)d.trips.size() <= maxLegs) { why = "reference invents an arrival at stop " + std::to_string(i); return false; }
  } else {
    std::vector<long> best(N, NONE_R);
    long budget = 2000000;
    std::vector<std::vector<std::pair<int, int>>> into(N);
    for (size_t n = 0; n < N; n++) for (auto& fp : d.nodes[n].foot) into[fp.to].push_back({(int)n, fp.time});
    std::function<void(int, long, int)> ride = [&](int node, long by, int depth) {
      if (depth > maxLegs || --budget < 0) return;
      for (size_t ti = 0; ti < d.trips.size(); ti++) {
        if (!adm[ti]) continue;
        const auto& t = d.trips[ti];
        const auto& p = d.paths[t.path];
        if ((budget -= 1 + (long)p.nodes.size() / 8) < 0) return;
        for (size_t j = 1; j < p.nodes.size(); j++) {
          if (p.nodes[j] != node || t.unboard[j] != 1 || t.arr[j] > by) continue;
          for (size_t i = 0; i < j; i++) {
            if (--budget < 0) return;
            if (t.board[i] != 1) continue;
            long v = t.dep[i] - d.minWait(t, l.mw);
            best[p.nodes[i]] = std::max(best[p.nodes[i]], v);
            for (auto& [n, time] : into[p.nodes[i]]) if (time <= l.maxXfer) ride(n, v - time, depth + 1);
          }
        }
      }
    };
    for (auto& a : d.places[q.destination].acc) if (a.time <= l.maxEgr) ride(a.node, (long)q.time - a.time, 1);
    if (budget < 0) return true;
    Reverse r = reverse(d, adm, q.destination, q.time, l);
    for (size_t i = 0; i < N; i++)
      if (r.board[i] < best[i]) { why = "reference misses a boarding at stop " + std::to_string(i); return false; }
      else if (r.board[i] > best[i] && (int)d.trips.size() <= maxLegs) { why = "reference invents a boarding at stop " + std::to_string(i); return false; }
  }
  return true;
}
} // namespace orc
