#pragma once
#include "model.hpp"
#include "oracle.hpp"

namespace gen {
struct Cfg {
  int minNodes = 3, maxNodes = 9;
  int minLines = 2, maxLines = 6;
  int maxTripsPerPath = 4;
  int maxPathLen = 6;
  double transferableP = 0.25; // share of data sets with "transferable" lines
  double flagsP = 0.5;         // share of data sets with boarding/alighting restrictions
  double loopP = 0.15;
  bool zeroHops = false;
  bool completeAcc = false;    // every place lists every stop (needed with the OSRM stub)
  int places = 5;
  int scenarios = 4;
  bool nullDistances = false;
  bool small = false;
  double lateP = 0.2;          // data sets in the last hours before 32:00 / first hours
  int longHops = 0;
  bool spread = false;         // stops over a few km in some part of the world; table times respect the walking speed of the prefilter
  bool rich = false;           // names with quotes, backslashes, accents, emptiness
  double corridorP = 0.3;      // data sets laid out along a corridor, where most journeys need several rides
  double tangleP = 0.12;       // data sets with lines that meet several times (see tangle)
  int parallel = 0;            // this many lines run between the same two ends (many alternatives)
  bool longPaths = false;      // some paths pass more than 100 stops, again and again
  bool huge = false;           // footpaths and access walks of hours and tens of kilometres
  double euclidP = 0.06;       // data sets for the Euclidean filter: coordinates over kilometres, tables computed from them
  bool emptyScenario = false;  // the last scenario has no services
};
m::Dataset dataset(Rng& r, const Cfg& c);
// A random query, biased towards boundaries of the data
m::Query query(Rng& r, const m::Dataset& d, bool access);
// Moves one limit of q to the exact boundary (or one past) given by the reference answer
void sharpen(Rng& r, const m::Dataset& d, m::Query& q);
// Keeps the limits of a request on a data set for the Euclidean filter away from where rounding decides
void settle(const m::Dataset& d, m::Query& q);
bool hasZeroHop(const m::Dataset& d);
// min wait 0 together with zero-length hops is left out (see DESIGN.md)
bool zeroWaitZeroHop(const m::Dataset& d, const m::Query& q);
int lastClock(const m::Dataset& d);
} // namespace gen
