// Faults in cache files: missing, truncated, corrupt, inconsistent.
#pragma once
#include "model.hpp"
#include <string>
#include <vector>

namespace faults {
struct Fault {
  std::string what;                 // one line
  std::vector<std::string> files;   // relative paths touched
  std::set<std::string> deleted;    // kinds whose file was deleted: AGENCIES SERVICES NODES LINES PATHS SCENARIOS SCHEDULES
  std::set<std::string> touched;    // kinds of the touched files (also LINEFILE, NODEFILE, AUX)
  // Kinds whose files, or files they refer to, were touched: only those may be reported missing
  bool mayLack(const std::string& kind) const;
  std::set<int> lostLines;          // lines whose schedule file was deleted
  bool onlyDeletions = false;       // every touched file was deleted
  bool onlyAux = false;             // only files that routing does not need (data sources, persons, od trips)
  bool onlyScheduleDeletions = false;
  bool onlyForeign = false;         // valid files with additional records that refer to identifiers no file defines: everything else must be served as encoded
};
std::vector<std::string> list(const std::string& dir); // relative paths of all regular files, sorted
// Damages the valid files of `d` below dir
Fault inject(Rng& r, const m::Dataset& d, const std::string& dir);
void copyTree(const std::string& from, const std::string& to);
void removeTree(const std::string& dir);
} // namespace faults
