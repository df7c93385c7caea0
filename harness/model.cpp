#include "model.hpp"
#include <algorithm>
#include <nlohmann/json.hpp>

namespace m {
using nlohmann::json;

static bool has(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static bool has(const std::vector<std::string>& v, const std::string& x) { return std::find(v.begin(), v.end(), x) != v.end(); }

bool Dataset::admits(const Scenario& s, const Trip& t) const {
  const int li = paths[t.path].line;
  const Line& l = lines[li];
  if (!s.services.empty() && !has(s.services, t.service)) return false;
  if (!s.onlyLines.empty() && !has(s.onlyLines, li)) return false;
  if (!s.onlyAgencies.empty() && !has(s.onlyAgencies, l.agency)) return false;
  if (!s.onlyModes.empty() && !has(s.onlyModes, l.mode)) return false;
  if (has(s.exceptLines, li)) return false;
  if (has(s.exceptAgencies, l.agency)) return false;
  if (has(s.exceptModes, l.mode)) return false;
  return true;
}
bool Dataset::anyTransferable() const {
  for (auto& l : lines) if (l.mode == "transferable") return true;
  return false;
}
std::vector<char> Dataset::admitted(int sc) const {
  std::vector<char> r(trips.size());
  for (size_t i = 0; i < trips.size(); i++) r[i] = admits(scenarios[sc], trips[i]);
  return r;
}

std::string e6(int v) {
  char b[40];
  bool neg = v < 0;
  long a = neg ? -(long)v : v;
  snprintf(b, sizeof b, "%s%ld.%06ld", neg ? "-" : "", a / 1000000, a % 1000000);
  return b;
}
std::string coord(const Place& p) { return e6(p.lonE6) + "," + e6(p.latE6); }

std::vector<std::pair<std::string, std::string>> Query::params(const Dataset& d) const {
  std::vector<std::pair<std::string, std::string>> r;
  if (kind == ACCESS) r.push_back({"place", coord(d.places[origin])});
  else {
    r.push_back({"origin", coord(d.places[origin])});
    r.push_back({"destination", coord(d.places[destination])});
  }
  r.push_back({"scenario_id", d.scenarios[scenario].uuid});
  r.push_back({"time_of_trip", std::to_string(time)});
  if (arrival) r.push_back({"time_type", "1"});
  if (minWait) r.push_back({"min_waiting_time", std::to_string(*minWait)});
  if (maxTravel) r.push_back({"max_travel_time", std::to_string(*maxTravel)});
  if (maxAccess) r.push_back({"max_access_travel_time", std::to_string(*maxAccess)});
  if (maxEgress) r.push_back({"max_egress_travel_time", std::to_string(*maxEgress)});
  if (maxTransfer) r.push_back({"max_transfer_travel_time", std::to_string(*maxTransfer)});
  if (firstWait) r.push_back({"max_first_waiting_time", std::to_string(*firstWait)});
  if (alternatives) r.push_back({"alternatives", "true"});
  return r;
}
std::string Query::url(const Dataset& d) const {
  std::string s = endpoint();
  char sep = '?';
  for (auto& p : params(d)) { s += sep; s += p.first + "=" + p.second; sep = '&'; }
  return s;
}

std::string uuidFrom(Rng& r) {
  uint64_t a = r.next(), b = r.next();
  char s[40];
  snprintf(s, sizeof s, "%08x-%04x-4%03x-%04x-%012llx", (unsigned)(a >> 32), (unsigned)((a >> 16) & 0xffff), (unsigned)(a & 0xfff),
           (unsigned)(0x8000 | ((b >> 48) & 0x3fff)), (unsigned long long)(b & 0xffffffffffffull));
  return s;
}

json toJson(const Dataset& d) {
  json j;
  for (size_t i = 0; i < d.nodes.size(); i++) {
    auto& n = d.nodes[i];
    json f = json::array();
    for (auto& x : n.foot) f.push_back({x.to, x.time, x.dist});
    j["nodes"].push_back({{"i", i}, {"uuid", n.uuid}, {"lat", n.latE6}, {"lon", n.lonE6}, {"code", n.code}, {"name", n.name}, {"foot_to_time_dist", f}});
  }
  for (auto& a : d.agencies) j["agencies"].push_back({a.uuid, a.acronym, a.name});
  for (auto& a : d.services) j["services"].push_back({a.uuid, a.name});
  for (auto& l : d.lines) j["lines"].push_back({{"uuid", l.uuid}, {"agency", l.agency}, {"mode", l.mode}, {"short", l.shortname}});
  for (auto& p : d.paths) j["paths"].push_back({{"uuid", p.uuid}, {"line", p.line}, {"nodes", p.nodes}, {"dist", p.segDist}});
  for (auto& t : d.trips) {
    std::vector<int> b(t.board.begin(), t.board.end()), u(t.unboard.begin(), t.unboard.end());
    j["trips"].push_back({{"uuid", t.uuid}, {"path", t.path}, {"service", t.service}, {"arr", t.arr}, {"dep", t.dep}, {"board", b}, {"unboard", u}});
  }
  for (auto& s : d.scenarios)
    j["scenarios"].push_back({{"uuid", s.uuid}, {"services", s.services}, {"onlyLines", s.onlyLines}, {"exceptLines", s.exceptLines},
                              {"onlyAgencies", s.onlyAgencies}, {"exceptAgencies", s.exceptAgencies}, {"onlyModes", s.onlyModes}, {"exceptModes", s.exceptModes}});
  for (auto& p : d.places) {
    json a = json::array();
    for (auto& x : p.acc) a.push_back({x.node, x.time, x.dist});
    j["places"].push_back({{"lat", p.latE6}, {"lon", p.lonE6}, {"stops_node_time_dist", a}});
  }
  return j;
}
json toJson(const Dataset& d, const Query& q) {
  json j;
  j["url"] = q.url(d);
  j["origin"] = q.origin;
  j["destination"] = q.destination;
  j["scenario"] = q.scenario;
  return j;
}
uint64_t fingerprint(const Dataset& d) {
  uint64_t h = 77;
  auto add = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
  for (auto& n : d.nodes) for (auto& f : n.foot) { add(f.to); add(f.time); }
  for (auto& p : d.paths) for (int n : p.nodes) add(n);
  for (auto& t : d.trips) for (size_t i = 0; i < t.arr.size(); i++) { add(t.arr[i]); add(t.dep[i]); }
  return h;
}
Dataset withoutTrips(const Dataset& d, const std::vector<char>& keep) {
  Dataset r = d;
  r.trips.clear();
  for (size_t i = 0; i < d.trips.size(); i++) if (keep[i]) r.trips.push_back(d.trips[i]);
  return r;
}
} // namespace m
