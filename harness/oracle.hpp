// Reference semantics (independent of the code under test) and the itinerary monitor.
#pragma once
#include "model.hpp"
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

namespace orc {
using nlohmann::json;

struct Issue { std::string tag, key, msg; }; // tag: C01 C02 C06 DATA DIST

struct Limits { int mw, maxTravel, maxAcc, maxEgr, maxXfer, cap; };
Limits limits(const m::Query& q);

// Checks one route object of a /v2/route answer against the data set and the query.
void checkRoute(const m::Dataset& d, const m::Query& q, const std::vector<char>& admitted, const json& route, std::vector<Issue>& out);
// Lines boarded, sorted (multiset), by uuid
std::vector<std::string> linesOf(const json& route);

constexpr long NONE_F = 1L << 40;  // "not reachable" for earliest times
constexpr long NONE_R = -(1L << 40);

struct Forward {
  std::vector<long> stand;  // earliest time at a stop ready to wait (access or transfer walk)
  std::vector<long> alight; // earliest alighting time
};
// cap>0: wait at first stop counted from `time + access` is at most cap (only for rides from an access stop)
Forward forward(const m::Dataset& d, const std::vector<char>& admitted, int place, long time, const Limits& l);
struct Reverse {
  std::vector<long> board; // latest (departure - min wait) over useful boardings at the stop
};
Reverse reverse(const m::Dataset& d, const std::vector<char>& admitted, int place, long time, const Limits& l);

// Earliest arrival (NONE_F if none), before max_travel filtering
long earliestArrival(const m::Dataset& d, const std::vector<char>& adm, const m::Query& q, const Limits& l);
// Latest departure (NONE_R if none) for arriving by `deadline`; notBefore/cap restrict the first boarding
long latestDeparture(const m::Dataset& d, const std::vector<char>& adm, const m::Query& q, const Limits& l, long deadline, long capFrom = -1);

bool anyAccess(const m::Dataset& d, int place, int max);
bool serviceFrom(const m::Dataset& d, const std::vector<char>& adm, int place, long time, const Limits& l);
bool serviceTo(const m::Dataset& d, const std::vector<char>& adm, int place, long time, const Limits& l);

// Exhaustive depth-first enumeration on tiny networks: cross-checks the two fixpoints above.
bool crossCheck(const m::Dataset& d, const std::vector<char>& adm, const m::Query& q, const Limits& l, std::string& why);

int nodeByUuid(const m::Dataset& d, const std::string& u);
} // namespace orc
