// Helpers shared by the check families
#pragma once
#include "gen.hpp"
#include "oracle.hpp"
#include "runner.hpp"

namespace cc {
constexpr int DAY32 = 32 * 3600;
nlohmann::json detail(const m::Dataset& d, const m::Query& q, const nlohmann::json& resp);
bool usable(Case& c, const m::Dataset& d, const m::Query& q, const nlohmann::json& r);
uint64_t caseHash(const m::Dataset& d, const m::Query& q);
gen::Cfg cfgFor(Case& c);
int queriesPerCase(const Case& c);
// The same request with one or two things changed
m::Query relatedQuery(Case& c, const m::Dataset& d, const m::Query& q);
m::Query makeQuery(Case& c, const m::Dataset& d, bool access);
bool skipZero(const m::Dataset& d, const m::Query& q);
std::string reasonFor(const m::Dataset& d, const m::Query& q, bool none);
// A query of any endpoint (route, summary, accessibility; some with alternatives)
m::Query anyQuery(Case& c, const m::Dataset& d);
// New data over old files: kind "all", "schedules", "scenarios" or "both" (schedules and scenarios)
m::Dataset evolve(Case& c, const m::Dataset& old, const std::string& kind, const gen::Cfg& k);
// Makes the data set incomplete (one kind empty); returns what is missing
std::string cripple(Case& c, m::Dataset& d);
void compareAccess(Case& c, const m::Dataset& d, const m::Query& q, const nlohmann::json& r);
// Everything the reference says about one answer (route or accessibility): reason, times, per-stop times, itineraries
void checkAgainstReference(Case& c, const m::Dataset& d, const m::Query& q, const nlohmann::json& r);
}
