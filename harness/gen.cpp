#include "runner.hpp"
#include "gen.hpp"
#include <algorithm>
#include <cmath>

namespace gen {
using namespace m;

// Seconds no walk between the two points can beat (the router client's prefilter assumes 5 km/h as the crow flies)
static int walkFloor(int la, int lo, int lb, int ob) {
  const double my = (la - lb) * 0.1113, mx = (lo - ob) * 0.1113 * std::cos(la * 1e-6 * M_PI / 180);
  return (int)std::ceil(std::sqrt(mx * mx + my * my) / 1.2);
}
static std::string name(Rng& r, const Cfg& c, const std::string& base) {
  if (!c.rich || r.chance(0.5)) return base;
  static const std::vector<std::string> odd{"", "\"quoted\"", "back\\slash", "Métro Côte-Vertu", "駅", "tab\there", "line\nbreak", "a/b?c=d&e", "%41%", "{\"x\": 1}", "😀", "it's", "very long name very long name very long name very long name very long name very long name very long name"};
  return r.chance(0.7) ? base + " " + r.pick(odd) : r.pick(odd);
}

static const std::vector<std::pair<int, int>> towns{{45500000, -73600000}, {-33450000, -70660000}, {60170000, 24940000}, {1290000, 103850000}, {3000, -2000}, {51477000, -4000}, {-36848000, 174763000}, {64135000, -21895000}};

// Coordinates over some kilometres and tables as straight lines at 5 km/h give them (whole metres, whole seconds).
// Points for which rounding would decide are not used.
static bool straight(const Place& p, const Node& n, int& metres, int& seconds) {
  const double a = p.latE6 * 1e-6 * M_PI / 180;
  const double x = (n.lonE6 - p.lonE6) * 1e-6 * (111412.84 * std::cos(a) - 93.5 * std::cos(3 * a));
  const double y = (n.latE6 - p.latE6) * 1e-6 * (111132.92 - 559.82 * std::cos(2 * a) + 1.175 * std::cos(4 * a));
  const double m = std::sqrt(x * x + y * y);
  metres = (int)m;
  seconds = (int)(metres * 0.72);
  if (m == 0) return true;
  const double f = m - metres;
  return f > 0.05 && f < 0.95 && metres % 25 != 0 && std::abs(seconds - 1200) > 3;
}
static void euclid(Rng& r, Dataset& d) {
  const int radius = r.pick(std::vector<int>{2000, 6000, 12000, 20000, 50000});
  const auto& t = r.pick(towns);
  for (auto& n : d.nodes) { n.latE6 = t.first + (int)r.range(-radius, radius); n.lonE6 = t.second + (int)r.range(-radius, radius); }
  std::set<std::pair<int, int>> taken;
  for (auto& p : d.places) {
    for (bool ok = false; !ok;) {
      const bool at = r.chance(0.1);
      auto& n = d.nodes[r.range(0, d.nodes.size() - 1)];
      p.latE6 = at ? n.latE6 : n.latE6 + (int)r.range(-radius / 2, radius / 2);
      p.lonE6 = at ? n.lonE6 : n.lonE6 + (int)r.range(-radius / 2, radius / 2);
      p.acc.clear();
      ok = taken.insert({p.latE6, p.lonE6}).second;
      for (size_t i = 0; ok && i < d.nodes.size(); i++) {
        Acc a{(int)i, 0, 0};
        ok = straight(p, d.nodes[i], a.dist, a.time);
        p.acc.push_back(a);
      }
    }
  }
  d.euclid = true;
}
void settle(const Dataset& d, Query& q) {
  if (!d.euclid) return;
  for (auto* l : {&q.maxAccess, &q.maxEgress})
    for (bool again = *l && **l > 0; again;) {
      again = false;
      for (auto& p : d.places) for (auto& a : p.acc) if (std::abs(a.time - **l) <= 2) { **l += 3; again = true; }
    }
}

// Names that several objects share and identifiers that differ in one half only (no random number is drawn for this)
static void lookAlikes(Dataset& d) {
  const uint64_t h = fnv(d.nodes[0].uuid + d.scenarios[0].uuid);
  if (h % 3 == 0) {
    const uint64_t w = h >> 8;
    if (w & 1) for (auto& s : d.scenarios) s.name = "Scenario";
    if (w & 2) for (size_t i = 0; i < d.lines.size(); i++) d.lines[i].shortname = d.lines[i / 2 * 2].shortname;
    if (w & 4) for (size_t i = 0; i < d.lines.size(); i++) d.lines[i].longname = d.lines[i % 2].longname;
    if (w & 8) for (size_t i = 0; i < d.agencies.size(); i++) d.agencies[i].acronym = d.agencies[0].acronym;
    if (w & 16) for (size_t i = 0; i < d.agencies.size(); i++) d.agencies[i].name = d.agencies[0].name;
    if (w & 32) for (auto& n : d.nodes) n.code = d.nodes[0].code;
    if (w & 64) for (auto& n : d.nodes) n.name = d.nodes[0].name;
    if (w & 128) for (auto& s : d.services) s.name = d.services[0].name;
    if (w & 256) for (auto& n : d.nodes) n.id = 1;
  }
  const uint64_t u = (h >> 32) % 6;
  if (u < 2) {
    const std::string first = d.scenarios[0].uuid;
    auto alike = [&](std::string& x) { x = u == 0 ? first.substr(0, 24) + x.substr(24) : x.substr(0, 13) + first.substr(13); };
    for (auto& x : d.nodes) alike(x.uuid);
    for (auto& x : d.agencies) alike(x.uuid);
    for (auto& x : d.services) alike(x.uuid);
    for (auto& x : d.lines) alike(x.uuid);
    for (auto& x : d.paths) alike(x.uuid);
    for (auto& x : d.trips) alike(x.uuid);
    for (auto& x : d.scenarios) alike(x.uuid);
  }
}

// Three lines that meet more than once: one from a over n to x, from where a walk leads to y; one from y back over n to b;
// one from z, near n, to b. Journeys from a to b get on and off at places that the clean-up of a journey moves.
static void tangle(Rng& r, Dataset& d, const Cfg& c, bool minutes, bool flags, int base) {
  std::vector<int> k(d.nodes.size());
  for (size_t i = 0; i < k.size(); i++) k[i] = i;
  for (size_t i = k.size() - 1; i > 0; i--) std::swap(k[i], k[r.range(0, i)]);
  const int a = k[0], b = k[1], n = k[2], x = k[3], y = r.chance(0.25) ? x : k[4], z = r.chance(0.25) ? n : k[5];
  auto foot = [&](int from, int to) {
    for (auto& f : d.nodes[from].foot) if (f.to == to) return f.time;
    const int t = minutes ? 60 * (int)r.range(1, 5) : (int)r.range(1, 400);
    d.nodes[from].foot.push_back({to, t, t + (int)r.range(1, 40)});
    return t;
  };
  const int xy = foot(x, y), nz = foot(n, z);
  auto line = [&](std::vector<int> stops, int start, std::vector<int>& at) { // a line with one or two vehicles; the times of the first
    Line l = r.pick(d.lines);
    l.uuid = uuidFrom(r);
    l.shortname = name(r, c, "L" + std::to_string(d.lines.size()));
    d.lines.push_back(l);
    for (size_t i = 1; i < stops.size(); i++)
      if (k.size() > 6 && r.chance(0.2)) { int s = k[r.range(6, k.size() - 1)]; if (std::find(stops.begin(), stops.end(), s) == stops.end()) stops.insert(stops.begin() + i, s); }
    Path p;
    p.uuid = uuidFrom(r);
    p.line = d.lines.size() - 1;
    p.nodes = stops;
    std::vector<int> hop;
    for (size_t i = 0; i + 1 < stops.size(); i++) { hop.push_back(minutes ? 60 * (int)r.range(1, 6) : (int)r.range(15, 400)); p.segTime.push_back(hop[i]); p.segDist.push_back((int)r.range(50, 3000)); }
    d.paths.push_back(p);
    for (int v = r.range(1, 2), j = 0; j < v; j++) {
      Trip t;
      t.uuid = uuidFrom(r);
      t.path = d.paths.size() - 1;
      t.service = r.range(0, d.services.size() - 1);
      int clk = start;
      for (size_t i = 0; i < stops.size(); i++) {
        t.arr.push_back(clk); t.dep.push_back(clk);
        t.board.push_back(flags && r.chance(0.1) ? 0 : 1); t.unboard.push_back(flags && r.chance(0.1) ? 0 : 1);
        if (i < hop.size()) clk += hop[i];
      }
      if (j == 0) { at.assign(d.nodes.size(), 0); for (size_t i = 0; i < stops.size(); i++) at[stops[i]] = t.dep[i]; }
      d.trips.push_back(t);
      start += minutes ? 60 * (int)r.range(1, 15) : (int)r.range(30, 900);
    }
  };
  auto slack = [&](int most) { return minutes ? 60 * (int)r.range(0, most / 60) : (int)r.range(0, most); };
  const int wait = r.pick(std::vector<int>{0, 60, 180, 180});
  std::vector<int> at;
  line({a, n, x}, std::max(0, base + slack(900)), at);
  line({y, n, b}, at[x] + xy + wait + slack(300), at);
  if (r.chance(0.85)) line({z, b}, at[n] + nz + wait + slack(420), at);
  d.tangle = {a, b};
}

Dataset dataset(Rng& r, const Cfg& c) {
  const InHarness mark;
  Dataset d;
  const int N = r.range(c.minNodes, c.maxNodes);
  const bool corridor = N >= 5 && c.parallel == 0 && r.chance(c.corridorP);
  d.corridor = corridor;
  // All points sit on distinct micro-degrees (< 1 m apart): distances never interfere with the tables
  std::vector<int> cell(64);
  for (int i = 0; i < 64; i++) cell[i] = i;
  for (int i = 63; i > 0; i--) std::swap(cell[i], cell[r.range(0, i)]);
  size_t ci = 0;
  int LAT0 = 45500000, LON0 = -73600000;
  if (c.spread) std::tie(LAT0, LON0) = r.pick(towns);
  std::set<std::pair<int, int>> taken;
  const int radius = c.spread ? r.pick(std::vector<int>{2000, 8000, 15000}) : 0;
  auto point = [&] {
    std::pair<int, int> p;
    if (!c.spread) { p = {LAT0 + cell[ci % 64] % 8, LON0 + cell[ci % 64] / 8}; ci++; return p; }
    do p = {LAT0 + (int)r.range(-radius, radius), LON0 + (int)r.range(-radius, radius)}; while (!taken.insert(p).second);
    return p;
  };
  const int bigId = r.chance(0.3) ? 4000000 : 1;
  for (int i = 0; i < N; i++) {
    auto p = point();
    d.nodes.push_back({uuidFrom(r), name(r, c, "c" + std::to_string(i)), name(r, c, "Stop " + std::to_string(i)), p.first, p.second, bigId + i, {}});
  }
  static const std::vector<int> footTimes{1, 30, 60, 60, 120, 120, 180, 240, 300, 420, 600, 900, 1200, 1500};
  const double footP = r.chance(0.2) ? 0.0 : r.chance(0.5) ? 0.12 : 0.3;
  for (int i = 0; i < N; i++) d.nodes[i].foot.push_back({i, 0, 0});
  for (int i = 0; i < N; i++)
    for (int j = i + 1; j < N; j++) {
      if (!r.chance(footP)) continue;
      int t = r.pick(footTimes), t2 = r.chance(0.6) ? t : r.pick(footTimes);
      bool ab = r.chance(0.93), ba = r.chance(0.93);
      if (corridor && j - i > 3) continue;
      if (ab) d.nodes[i].foot.push_back({j, t, t + (int)r.range(1, 40)});
      if (ba) d.nodes[j].foot.push_back({i, t2, t2 + (int)r.range(1, 40)});
    }
  if (c.huge) for (auto& n : d.nodes) for (auto& f : n.foot) if (f.time > 0) { f.time = f.time * 30 + (int)r.range(0, 29); f.dist = f.dist * 50 + (int)r.range(0, 49); }
  if (r.chance(0.3)) for (auto& n : d.nodes) std::reverse(n.foot.begin(), n.foot.end());

  const int nA = r.range(1, 3), nS = r.range(1, 4);
  for (int i = 0; i < nA; i++) d.agencies.push_back({uuidFrom(r), name(r, c, "AG" + std::to_string(i)), name(r, c, "Agency " + std::to_string(i))});
  for (int i = 0; i < nS; i++) d.services.push_back({uuidFrom(r), "Service " + std::to_string(i)});
  static const std::vector<std::string> modes{"bus", "bus", "bus", "rail", "metro", "tram"};
  const bool tr = r.chance(c.transferableP);
  const int nL = r.range(c.minLines, c.maxLines);
  for (int i = 0; i < nL; i++)
    d.lines.push_back({uuidFrom(r), name(r, c, "L" + std::to_string(i)), name(r, c, "Line " + std::to_string(i)), (int)r.range(0, nA - 1), tr && r.chance(0.35) ? std::string("transferable") : r.pick(modes), r.chance(0.3)});

  const bool flags = r.chance(c.flagsP);
  int base;
  {
    double x = r.next() % 1000 / 1000.0;
    if (x < c.lateP / 2) base = r.range(0, 3600);
    else if (x < c.lateP) base = r.range(27, 30) * 3600 + r.range(0, 3600);
    else if (x < 0.5) base = r.range(5, 25) * 3600 + r.range(-400, 400);
    else base = 8 * 3600;
  }
  const int span = r.chance(0.5) ? 1800 : r.chance(0.7) ? 5400 : 4 * 3600;
  static const std::vector<int> hopMin{1, 1, 2, 2, 3, 3, 4, 5, 7, 10};
  static const std::vector<int> dwellS{0, 0, 0, 0, 20, 30, 60, 120};
  const bool minutes = r.chance(0.65);
  const bool onHour = r.chance(0.12); // some events exactly on the hour, where the server's hourly indexes switch
  const double zeroP = c.zeroHops && r.chance(0.5) ? 0.2 : 0.0;
  for (int li = 0; li < nL; li++) {
    const int nP = r.chance(0.35) ? 2 : 1;
    for (int pi = 0; pi < nP; pi++) {
      Path p;
      p.uuid = uuidFrom(r);
      p.line = li;
      if (pi == 1 && r.chance(0.6)) {
        p.nodes = d.paths.back().nodes;
        std::reverse(p.nodes.begin(), p.nodes.end());
      } else {
        int len = r.range(2, std::max(2, std::min(c.maxPathLen, N)));
        bool loop = r.chance(c.loopP);
        if (c.parallel > 0) { // all lines join the two ends, some with a stop in between
          p.nodes.push_back(0);
          if (N > 2 && r.chance(0.2)) p.nodes.push_back(r.range(1, N - 2));
          p.nodes.push_back(N - 1);
          len = 0;
        } else if (corridor && !r.chance(0.15)) { // a stretch of the corridor, sometimes with skipped stops or a step back
          int x = li < 2 ? li * (N - 2) / 2 : r.range(0, N - 2);
          p.nodes.push_back(x);
          while ((int)p.nodes.size() < len && x < N - 1) {
            x += r.chance(0.75) ? 1 : r.range(1, 3);
            if (x > N - 1) x = N - 1;
            p.nodes.push_back(x);
            if (loop && r.chance(0.3) && x > 1) { x -= 2; p.nodes.push_back(x); }
          }
          len = 0;
        }
        if (c.longPaths && pi == 0 && li < 2) { len = r.pick(std::vector<int>{100, 128, 129, 200, 255, 256, 257, 300}); loop = true; p.nodes.clear(); }
        while ((int)p.nodes.size() < len) {
          int x = r.range(0, N - 1);
          if (!p.nodes.empty() && p.nodes.back() == x) continue;
          if (!loop && std::find(p.nodes.begin(), p.nodes.end(), x) != p.nodes.end()) continue;
          p.nodes.push_back(x);
        }
      }
      const int n = p.nodes.size();
      std::vector<int> hop(n - 1), dwell(n, 0);
      const bool dw = r.chance(0.4);
      for (int k = 0; k + 1 < n; k++) {
        hop[k] = minutes ? 60 * r.pick(hopMin) : r.range(15, 700);
        if (n > 50) hop[k] = r.range(10, 70);
        if (zeroP > 0 && r.chance(zeroP)) hop[k] = 0;
        if (c.longHops && r.chance(0.1)) hop[k] = r.range(1, 4) * 3600;
        if (dw) dwell[k] = r.pick(dwellS);
        p.segTime.push_back(hop[k]);
        p.segDist.push_back(c.nullDistances && r.chance(0.06) ? -1 : (int)r.range(50, 3000));
      }
      const int nT = r.range(1, c.maxTripsPerPath);
      const int head = minutes ? 60 * r.range(2, 25) : r.range(100, 1600);
      int t0 = base + (minutes ? 60 * r.range(0, span / 60) : r.range(0, span));
      if (corridor) t0 = base + p.nodes[0] * (minutes ? 240 : 300) + (minutes ? 60 * r.range(0, 15) : r.range(0, 900)); // so that connections are near
      if (n > 50) t0 = std::min(t0, 24 * 3600);
      if (c.parallel > 0) t0 = base + r.range(0, 1200);
      if (minutes) t0 -= t0 % 60;
      if (t0 < 0) t0 = 0;
      const bool overtaking = r.chance(0.25);
      for (int k = 0; k < nT; k++) {
        Trip t;
        t.uuid = uuidFrom(r);
        t.path = d.paths.size();
        t.service = r.range(0, nS - 1);
        int clk = t0 + k * head;
        if (overtaking && r.chance(0.5)) clk += minutes ? 60 * r.range(-3, 3) : r.range(-200, 200);
        if (clk < 0) clk = 0;
        for (int i = 0; i < n; i++) {
          t.arr.push_back(clk);
          if (i + 1 < n || r.chance(0.3)) clk += dwell[i];
          t.dep.push_back(clk);
          if (i + 1 < n) clk += overtaking && hop[i] > 0 && r.chance(0.3) ? std::max(15, hop[i] / 2) : hop[i];
          t.board.push_back(flags && r.chance(0.22) ? 0 : 1);
          t.unboard.push_back(flags && r.chance(0.22) ? 0 : 1);
        }
        if (onHour && r.chance(0.5)) {
          int i = r.range(0, n - 1), at = r.chance(0.5) ? t.arr[i] : t.dep[i], to = (at + 1800) / 3600 * 3600;
          if (t.arr[0] + to - at >= 0) for (int j = 0; j < n; j++) { t.arr[j] += to - at; t.dep[j] += to - at; }
        }
        d.trips.push_back(t);
      }
      d.paths.push_back(p);
    }
  }
  if (N >= 6 && c.parallel == 0 && !c.huge && r.chance(c.tangleP)) tangle(r, d, c, minutes, flags, base);
  // shuffle trips so that data order and time order differ
  for (size_t i = d.trips.size(); i > 1; i--) std::swap(d.trips[i - 1], d.trips[r.range(0, i - 1)]);

  // scenario 0 admits everything
  for (int s = 0; s < std::max(1, c.scenarios); s++) {
    Scenario x;
    x.uuid = uuidFrom(r);
    x.name = "Scenario " + std::to_string(s);
    if (s == 0 || r.chance(0.35)) for (int i = 0; i < nS; i++) x.services.push_back(i);
    else { for (int i = 0; i < nS; i++) if (r.chance(0.6)) x.services.push_back(i); if (x.services.empty()) x.services.push_back(r.range(0, nS - 1)); }
    if (s > 0) {
      auto some = [&](int n, double p) { std::vector<int> v; for (int i = 0; i < n; i++) if (r.chance(p)) v.push_back(i); return v; };
      if (r.chance(0.3)) x.onlyLines = some(d.lines.size(), 0.6);
      if (r.chance(0.35)) x.exceptLines = some(d.lines.size(), 0.25);
      if (r.chance(0.25)) x.onlyAgencies = some(nA, 0.6);
      if (r.chance(0.25)) x.exceptAgencies = some(nA, 0.3);
      std::set<std::string> ms;
      for (auto& l : d.lines) ms.insert(l.mode);
      if (r.chance(0.25)) for (auto& mo : ms) if (r.chance(0.6)) x.onlyModes.push_back(mo);
      if (r.chance(0.25)) for (auto& mo : ms) if (r.chance(0.3)) x.exceptModes.push_back(mo);
    }
    if (c.emptyScenario && s > 0 && s + 1 == c.scenarios) x.services.clear();
    d.scenarios.push_back(x);
  }
  // places
  static const std::vector<int> accTimes{1, 60, 60, 120, 120, 180, 240, 300, 300, 480, 600, 900, 1200, 1201, 1500};
  const double accP = r.chance(0.5) ? 0.25 : 0.45;
  for (int k = 0; k < c.places; k++) {
    Place p;
    std::tie(p.latE6, p.lonE6) = point();
    bool none = r.chance(0.06);
    for (int i = 0; i < N; i++) {
      if (!none && r.chance(c.parallel > 0 ? (i == 0 || i == N - 1 ? 0.9 : 0.1) : !corridor ? accP : (k % 2 ? N - 1 - i : i) < 3 ? 0.6 : 0.03)) { int t = minutes || r.chance(0.5) ? r.pick(accTimes) : (int)r.range(1, 1500); if (r.chance(onHour ? 0.2 : 0.03)) t = 0; p.acc.push_back({i, t, t + (int)r.range(0, 90)}); }
      else if (c.completeAcc) p.acc.push_back({i, (int)r.range(20000, 30000), (int)r.range(20000, 40000)});
    }
    if (!none && !c.completeAcc && p.acc.empty()) { int i = r.range(0, N - 1); p.acc.push_back({i, 120, 130}); }
    if (c.spread) for (auto& a : p.acc) {
      int f = walkFloor(p.latE6, p.lonE6, d.nodes[a.node].latE6, d.nodes[a.node].lonE6);
      if (a.time < f) { a.dist += f - a.time; a.time = f; }
    }
    if (c.huge) for (auto& a : p.acc) { a.time = a.time * 30 + (int)r.range(0, 29); a.dist = a.dist * 50 + (int)r.range(0, 49); }
    if (!d.tangle.empty() && k < 2 && !c.spread) {
      const int n = d.tangle[k];
      auto has = std::find_if(p.acc.begin(), p.acc.end(), [&](const Acc& a) { return a.node == n; });
      if (has == p.acc.end()) p.acc.push_back({n, 60, 70});
      else if (has->time > 1500) has->time = has->dist = 60;
    }
    if (r.chance(0.5)) std::reverse(p.acc.begin(), p.acc.end());
    d.places.push_back(p);
  }
  if (r.chance(c.euclidP) && !c.huge) euclid(r, d);
  lookAlikes(d);
  return d;
}

bool hasZeroHop(const Dataset& d) {
  for (auto& t : d.trips) for (size_t i = 0; i + 1 < t.dep.size(); i++) if (t.arr[i + 1] == t.dep[i]) return true;
  return false;
}
bool zeroWaitZeroHop(const Dataset& d, const Query& q) { return hasZeroHop(d) && (q.eMinWait() == 0 || d.anyTransferable()); }
int lastClock(const Dataset& d) {
  int x = 0;
  for (auto& t : d.trips) for (size_t i = 0; i < t.dep.size(); i++) x = std::max({x, t.dep[i], t.arr[i]});
  return x;
}

Query query(Rng& r, const Dataset& d, bool access) {
  const InHarness mark;
  Query q;
  q.kind = access ? Query::ACCESS : Query::ROUTE;
  const int P = d.places.size();
  q.origin = r.range(0, P - 1);
  q.destination = r.range(0, P - 1);
  if (q.destination == q.origin && r.chance(0.9)) q.destination = (q.origin + 1) % P;
  if (d.corridor && P > 1 && r.chance(0.7)) { // along the corridor
    q.origin = 2 * r.range(0, (P - 1) / 2);
    q.destination = 1 + 2 * r.range(0, (P - 2) / 2);
    if (access && r.chance(0.5)) q.origin = q.destination;
  }
  if (!d.tangle.empty() && P > 1 && r.chance(0.5)) { q.origin = 0; q.destination = 1; }
  q.scenario = r.chance(0.45) ? 0 : r.range(0, d.scenarios.size() - 1);
  q.arrival = r.chance(0.5);
  static const std::vector<int> mws{0, 0, 1, 30, 60, 120, 180, 300, 600};
  if (r.chance(0.75)) q.minWait = r.pick(mws);
  if (r.chance(0.03)) q.minWait = -5;
  const int mw = q.eMinWait();
  auto optLim = [&](std::optional<int>& v, const std::vector<int>& choices, double p) {
    if (!r.chance(p)) return;
    double x = r.next() % 1000 / 1000.0;
    if (x < 0.12) v = 0;
    else if (x < 0.17) v = -1;
    else v = r.pick(choices);
  };
  std::vector<int> at, et, ft{0};
  for (auto& p : d.places) for (auto& a : p.acc) if (a.time < 20000) at.push_back(a.time);
  if (at.empty()) at.push_back(300);
  for (auto& n : d.nodes) for (auto& f : n.foot) if (f.to != &n - &d.nodes[0]) ft.push_back(f.time);
  std::vector<int> accCh, ftCh;
  for (int i = 0; i < 4; i++) { accCh.push_back(std::max(1, r.pick(at) + (int)r.range(-1, 0))); ftCh.push_back(std::max(1, r.pick(ft) + (int)r.range(-1, 0))); }
  optLim(q.maxAccess, accCh, 0.3);
  optLim(q.maxEgress, accCh, 0.3);
  optLim(q.maxTransfer, ftCh, 0.3);
  optLim(q.maxTravel, {600, 1200, 1800, 2700, 3600, 5400, 7200}, 0.4);
  static const std::vector<int> caps{0, 0, 0, 0, -1, 60, 180, 300, 600, 900, 1800};
  if (r.chance(0.8)) q.firstWait = r.pick(caps);
  // request time
  size_t ti = r.range(0, d.trips.size() - 1);
  for (int i = 0; i < 8; i++) { // rather a trip that serves the place
    const auto& nodes = d.paths[d.trips[ti].path].nodes;
    bool serves = false;
    for (auto& a : d.places[access || !q.arrival ? q.origin : q.destination].acc)
      if (a.time < 20000 && std::find(q.arrival ? nodes.begin() + 1 : nodes.begin(), q.arrival ? nodes.end() : nodes.end() - 1, a.node) != (q.arrival ? nodes.end() : nodes.end() - 1)) serves = true;
    if (serves) break;
    ti = r.range(0, d.trips.size() - 1);
  }
  const Trip& t = d.trips[ti];
  const auto& pa = d.paths[t.path];
  if (r.chance(0.8)) {
    if (!q.arrival) {
      int k = r.range(0, std::max(0, (int)pa.nodes.size() - 2));
      for (int i = 0; i < 4; i++) { bool near = false; for (auto& a : d.places[q.origin].acc) near = near || (a.node == pa.nodes[k] && a.time < 20000); if (near) break; k = r.range(0, std::max(0, (int)pa.nodes.size() - 2)); }
      int acc = 0;
      if (access || true) for (auto& a : d.places[q.origin].acc) if (a.node == pa.nodes[k]) acc = a.time;
      long v = (long)t.dep[k] - (d.transferable(t) ? 0 : mw) - acc;
      double x = r.next() % 1000 / 1000.0;
      if (x < 0.35) v += 0;
      else if (x < 0.45) v += 1;
      else if (x < 0.55) v -= 1;
      else v -= r.range(0, 3000);
      q.time = std::max(0L, v);
    } else {
      int k = r.range(1, (int)pa.nodes.size() - 1);
      for (int i = 0; i < 4; i++) { bool near = false; for (auto& a : d.places[access ? q.origin : q.destination].acc) near = near || (a.node == pa.nodes[k] && a.time < 20000); if (near) break; k = r.range(1, (int)pa.nodes.size() - 1); }
      int egr = 0;
      for (auto& a : d.places[access ? q.origin : q.destination].acc) if (a.node == pa.nodes[k]) egr = a.time;
      long v = (long)t.arr[k] + egr;
      double x = r.next() % 1000 / 1000.0;
      if (x < 0.35) v += 0;
      else if (x < 0.45) v -= 1;
      else if (x < 0.55) v += 1;
      else v += r.range(0, 3000);
      q.time = std::max(0L, v);
    }
  } else q.time = r.range(std::max(0, t.dep[0] - 4000), t.dep[0] + 8000);
  if (q.time >= 32 * 3600) q.time = 32 * 3600 - 1 - r.range(0, 600);
  return q;
}

void sharpen(Rng& r, const Dataset& d, Query& q) {
  const InHarness mark;
  auto adm = d.admitted(q.scenario);
  orc::Limits l = orc::limits(q);
  l.cap = -1;
  l.maxTravel = MAXINT;
  if (q.kind == Query::ACCESS) {
    if (!q.arrival) {
      auto f = orc::forward(d, adm, q.origin, q.time, l);
      std::vector<long> v;
      for (long x : f.alight) if (x < orc::NONE_F) v.push_back(x - q.time);
      if (!v.empty()) q.maxTravel = std::max(1L, r.pick(v) - (long)r.range(0, 1));
    } else {
      auto b = orc::reverse(d, adm, q.origin, q.time, l);
      std::vector<long> v;
      for (long x : b.board) if (x > orc::NONE_R) v.push_back(q.time - x);
      if (!v.empty()) q.maxTravel = std::max(1L, r.pick(v) - (long)r.range(0, 1));
    }
    return;
  }
  if (!q.arrival) {
    long a = orc::earliestArrival(d, adm, q, l);
    if (a >= orc::NONE_F) return;
    if (r.chance(0.6)) q.maxTravel = std::max(1L, a - q.time - (long)r.range(0, 1));
    else {
      // first wait exactly at / just below what some journey needs
      long dep = orc::latestDeparture(d, adm, q, l, a);
      if (dep > orc::NONE_R && dep >= q.time) q.firstWait = std::max(1L, dep - q.time + q.eMinWait() - (long)r.range(0, 1));
    }
  } else {
    long dep = orc::latestDeparture(d, adm, q, l, q.time);
    if (dep <= orc::NONE_R || dep < 0) return;
    q.maxTravel = std::max(1L, q.time - dep - (long)r.range(0, 1));
  }
}
} // namespace gen
