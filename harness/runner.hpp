// Forking case runner: every batch of cases runs in its own child, so that a crash, sanitizer report or hang
// of the code under test is attributed to one case and does not stop the exploration.
#pragma once
#include "model.hpp"
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <unordered_set>
#include <vector>

struct Case {
  std::string prop;
  uint64_t seed = 1;
  long index = 0;
  bool thorough = false;
  bool verbose = false;       // replay: print details
  std::string scratch;        // private scratch directory of the child (created on demand by scratchDir)
  Rng rng{1};

  std::map<std::string, long> counts;
  std::unordered_set<uint64_t> distinct;
  std::vector<nlohmann::json> samples;
  struct V { std::string key; std::string msg; nlohmann::json detail; };
  std::vector<V> violations;

  void count(const std::string& k, long n = 1) { counts[k] += n; }
  void maxOf(const std::string& k, long n) { long& x = counts["max:" + k]; if (n > x) x = n; }
  void seen(uint64_t h) { distinct.insert(h); }
  void violation(const std::string& key, const std::string& msg, const nlohmann::json& detail = {}) {
    if (violations.size() < 5) violations.push_back({key, msg, detail});
    count("violations");
  }
  void sample(const nlohmann::json& j) { if (samples.size() < 3) samples.push_back(j); }
  std::string scratchDir(); // fresh empty directory, removed after the case
};

struct RunSpec {
  std::string prop;
  std::function<void(Case&)> fn;
  long cases = 1000;
  long batch = 50;
  int jobs = 8;
  double caseLimit = 30;   // seconds of wall clock before a case is considered stuck (then re-run alone with a longer limit)
  double retryLimit = 90;
  bool crashIsViolation = true;
};

struct RunOptions {
  uint64_t seed = 1;
  bool thorough = false;
  std::string scratchRoot; // directory for scratch data
  std::string outFile;     // JSON summary
  long onlyCase = -1;
  double timeBudget = 0;   // stop handing out batches after this many seconds (0: none)
};

// Marks the time spent in references and generators: a case that is stuck there has no verdict (it is not the code's doing)
extern volatile int* inHarness;
struct InHarness {
  InHarness() { if (inHarness) __atomic_add_fetch(inHarness, 1, __ATOMIC_RELAXED); }
  ~InHarness() { if (inHarness) __atomic_sub_fetch(inHarness, 1, __ATOMIC_RELAXED); }
};

int runCases(const RunSpec& spec, const RunOptions& opt);

// A short stable name for the way a process died (sanitizer report, signal, exit status) from its output and wait status
std::string crashKey(const std::string& err, int status);
