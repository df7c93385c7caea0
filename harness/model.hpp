// Abstract data set, queries and deterministic random numbers shared by all checks.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <nlohmann/json_fwd.hpp>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive range
  long range(long a, long b) { return b <= a ? a : a + (long)(next() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline uint64_t mixSeed(const std::string& tag, uint64_t seed, uint64_t idx) {
  uint64_t h = fnv(tag);
  Rng r(h ^ (seed * 0x9E3779B97F4A7C15ull) ^ (idx + 0x632BE59BD9B4E019ull) * 0xD6E8FEB86659FD93ull);
  return r.next();
}

namespace m {

constexpr int MAXINT = 2147483647;

struct Foot { int to, time, dist; };
struct Node { std::string uuid, code, name; int latE6, lonE6; int id; std::vector<Foot> foot; };
struct Agency { std::string uuid, acronym, name; };
struct Service { std::string uuid, name; };
struct Line { std::string uuid, shortname, longname; int agency; std::string mode; bool allowSameLine; };
struct Path { std::string uuid; int line; std::vector<int> nodes; std::vector<int> segTime, segDist; }; // segDist -1: unknown
struct Trip { std::string uuid; int path, service; std::vector<int> arr, dep; std::vector<char> board, unboard; };
struct Scenario {
  std::string uuid, name;
  std::vector<int> services, onlyLines, exceptLines, onlyAgencies, exceptAgencies;
  std::vector<std::string> onlyModes, exceptModes;
};
struct Acc { int node, time, dist; };
struct Place { int latE6, lonE6; std::vector<Acc> acc; };

struct Dataset {
  std::vector<Node> nodes;
  std::vector<Agency> agencies;
  std::vector<Service> services;
  std::vector<Line> lines;
  std::vector<Path> paths;
  std::vector<Trip> trips;
  std::vector<Scenario> scenarios;
  std::vector<Place> places;
  bool euclid = false;         // the places' tables are what the Euclidean filter gives: the server runs with it
  bool corridor = false;       // how it was generated: places with even index at the start, the others at the end
  std::vector<int> tangle;     // the two ends of lines that meet several times: stops near places 0 and 1

  bool transferable(const Trip& t) const { return lines[paths[t.path].line].mode == "transferable"; }
  int minWait(const Trip& t, int dflt) const { return transferable(t) ? 0 : dflt; }
  bool admits(const Scenario& s, const Trip& t) const;
  bool anyTransferable() const;
  std::vector<char> admitted(int scenario) const;
};

struct Query {
  enum Kind { ROUTE = 0, SUMMARY = 1, ACCESS = 2 } kind = ROUTE;
  int origin = 0, destination = 1; // place index; ACCESS uses origin as its place
  int scenario = 0;
  int time = 0;
  bool arrival = false;
  bool alternatives = false;
  std::optional<int> minWait, maxTravel, maxAccess, maxEgress, maxTransfer, firstWait;

  static int lim(const std::optional<int>& v, int dflt) { return !v ? dflt : (*v <= 0 ? MAXINT : *v); }
  int eMinWait() const { return !minWait ? 180 : (*minWait < 0 ? 0 : *minWait); }
  int eMaxTravel() const { return lim(maxTravel, MAXINT); }
  int eMaxAccess() const { return lim(maxAccess, 1200); }
  int eMaxEgress() const { return lim(maxEgress, 1200); }
  int eMaxTransfer() const { return lim(maxTransfer, 1200); }
  // <=0: no cap
  int eFirstWait() const { return !firstWait ? 1800 : (*firstWait <= 0 ? -1 : *firstWait); }

  std::vector<std::pair<std::string, std::string>> params(const Dataset& d) const;
  std::string endpoint() const { return kind == ROUTE ? "/v2/route" : kind == SUMMARY ? "/v2/summary" : "/v2/accessibility"; }
  std::string url(const Dataset& d) const;
};

std::string uuidFrom(Rng& r);
std::string coord(const Place& p);
std::string e6(int v);

// Dumps for replay files / fingerprints
nlohmann::json toJson(const Dataset& d);
nlohmann::json toJson(const Dataset& d, const Query& q);
uint64_t fingerprint(const Dataset& d);

// Rewrites a copy of d keeping only the trips for which keep[i] is non-zero.
Dataset withoutTrips(const Dataset& d, const std::vector<char>& keep);
} // namespace m
