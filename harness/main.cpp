#include "checks.hpp"
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <csignal>

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  RunSpec s;
  const std::string prop = a["--prop"];
  RunOptions o;
  o.thorough = a["--tier"] == "thorough";
  if (!a["--seed"].empty()) o.seed = strtoull(a["--seed"].c_str(), nullptr, 10);
  o.scratchRoot = a["--scratch"];
  o.outFile = a["--out"];
  if (!a["--only-case"].empty()) o.onlyCase = atol(a["--only-case"].c_str());
  if (!a["--budget"].empty()) o.timeBudget = atof(a["--budget"].c_str());
  if (!pickCheck(prop, s)) { std::cerr << "unknown property " << prop << "\n"; return 3; }
  if (!a["--cases"].empty()) s.cases = atol(a["--cases"].c_str());
  if (!a["--jobs"].empty()) s.jobs = atoi(a["--jobs"].c_str());
  if (o.scratchRoot.empty() || o.outFile.empty()) { std::cerr << "--scratch and --out are required\n"; return 3; }
  return runCases(s, o);
}
