#include "runner.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

using nlohmann::json;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void removeTree(const std::string& p) {
  DIR* d = opendir(p.c_str());
  if (d) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string q = p + "/" + n;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(q);
      else unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}
std::string Case::scratchDir() {
  static int n = 0;
  std::string p = scratch + "/d" + std::to_string(n++);
  removeTree(p);
  mkdir(p.c_str(), 0755);
  return p;
}

std::string crashKey(const std::string& err, int status) {
  auto grab = [&](const std::string& pat) -> std::string {
    size_t p = err.find(pat);
    if (p == std::string::npos) return "";
    size_t e = err.find_first_of("\n", p);
    return err.substr(p, e - p);
  };
  std::string k = grab("AddressSanitizer: ");
  if (!k.empty()) { size_t p = k.find(" on "); if (p != std::string::npos) k = k.substr(0, p); }
  if (k.empty()) k = grab("runtime error: ");
  if (k.empty()) k = grab("terminate called");
  if (k.empty()) k = grab("Assertion");
  if (k.empty()) k = WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status));
  std::string r;
  for (char ch : k.substr(0, 80)) r += (isalnum((unsigned char)ch) ? ch : '-');
  // function of /repo on the stack, if named
  size_t p = 0;
  while ((p = err.find("TrRouting::", p)) != std::string::npos) {
    size_t e = err.find_first_of("(<\n ", p);
    r += "@" + err.substr(p, e - p);
    break;
  }
  return "crash:" + r;
}

volatile int* inHarness = nullptr;

namespace {
struct Slot {
  volatile long current; // case being run, -1 none
  volatile double started;
  volatile long done;
  volatile int inHarness; // depth of InHarness marks
};
struct Child {
  pid_t pid = 0;
  long from = 0, to = 0;
  std::string out, err, scratch;
  Slot* slot = nullptr;
  bool single = false;
  double limit = 30;
  bool killed = false;
  bool inHarness = false; // when it was killed
};

void appendResult(const std::string& file, const Case& c, bool header) {
  json j;
  j["i"] = c.index;
  j["counts"] = c.counts;
  std::vector<std::string> hs;
  for (auto h : c.distinct) { char b[20]; snprintf(b, sizeof b, "%llx", (unsigned long long)h); hs.push_back(b); }
  j["distinct"] = hs;
  j["samples"] = c.samples;
  json vs = json::array();
  for (auto& v : c.violations) vs.push_back({{"key", v.key}, {"msg", v.msg}, {"case", c.index}, {"detail", v.detail}});
  j["violations"] = vs;
  std::ofstream f(file, std::ios::app);
  f << j.dump(-1, ' ', false, json::error_handler_t::replace) << "\n";
  (void)header;
}

[[noreturn]] void childMain(const RunSpec& spec, const RunOptions& opt, Child& ch) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open(ch.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (opt.onlyCase < 0) {
    dup2(fd, 2);
    dup2(fd, 1);
  }
  close(fd);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  mkdir(ch.scratch.c_str(), 0755);
  inHarness = &ch.slot->inHarness;
  for (long i = ch.from; i < ch.to; i++) {
    ch.slot->inHarness = 0;
    ch.slot->started = now();
    ch.slot->current = i;
    Case c;
    c.prop = spec.prop;
    c.seed = opt.seed;
    c.index = i;
    c.thorough = opt.thorough;
    c.verbose = opt.onlyCase >= 0;
    c.scratch = ch.scratch;
    c.rng = Rng(mixSeed(spec.prop, opt.seed, i));
    try {
      spec.fn(c);
    } catch (std::exception& e) {
      // exceptions of the harness itself must not look like a verdict
      c.count("harness_errors");
      std::cerr << "HARNESS-ERROR " << e.what() << std::endl;
    }
    appendResult(ch.out, c, false);
    removeTree(ch.scratch);
    mkdir(ch.scratch.c_str(), 0755);
    ch.slot->done = i + 1;
  }
  ch.slot->current = -1;
  _exit(0);
}
std::string tail(const std::string& file, size_t n) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // prefer the beginning of a sanitizer report
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
  if (p == std::string::npos) p = s.find("terminate called");
  if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}
} // namespace

int runCases(const RunSpec& spec, const RunOptions& opt) {
  double t0 = now(), firstAt = 0;
  const int J = opt.onlyCase >= 0 ? 1 : spec.jobs;
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Child> run(J);
  std::vector<int> freeSlots;
  for (int i = 0; i < J; i++) freeSlots.push_back(i);

  struct Work { long from, to; bool single; };
  std::vector<Work> queue; // LIFO
  if (opt.onlyCase >= 0) queue.push_back({opt.onlyCase, opt.onlyCase + 1, true});
  else for (long a = ((spec.cases - 1) / spec.batch) * spec.batch; a >= 0; a -= spec.batch) queue.push_back({a, std::min(spec.cases, a + spec.batch), false});

  std::map<std::string, long> counts;
  std::unordered_set<std::string> distinct;
  json samples = json::array(), violations = json::array(), inconclusive = json::array();
  long executed = 0, serial = 0, skipped = 0, hangs = 0;
  mkdir(opt.scratchRoot.c_str(), 0755);

  auto collect = [&](Child& c) {
    std::ifstream f(c.out);
    std::string line;
    while (std::getline(f, line)) {
      json j = json::parse(line, nullptr, false);
      if (j.is_discarded()) continue;
      executed++;
      for (auto& [k, v] : j["counts"].items()) {
        if (k.rfind("max:", 0) == 0) counts[k] = std::max(counts[k], v.get<long>());
        else counts[k] += v.get<long>();
      }
      for (auto& h : j["distinct"]) distinct.insert(h.get<std::string>());
      for (auto& s : j["samples"]) if (samples.size() < 3) samples.push_back(s);
      for (auto& v : j["violations"]) if (violations.size() < 200) violations.push_back(v);
    }
    f.close();
    unlink(c.out.c_str());
  };

  int active = 0;
  while (!queue.empty() || active > 0) {
    while (!queue.empty() && !freeSlots.empty()) {
      Work w = queue.back();
      queue.pop_back();
      if (w.from >= w.to) continue;
      if (opt.timeBudget > 0 && now() - t0 > opt.timeBudget && !w.single) { skipped += w.to - w.from; continue; }
      if (violations.size() && !firstAt) firstAt = now();
      if (!w.single && (violations.size() >= 40 || (firstAt && now() - firstAt > 45))) { skipped += w.to - w.from; continue; } // enough to report
      if (hangs >= 1) { skipped += w.to - w.from; continue; } // the verdict is in, and every further hang costs minutes
      int s = freeSlots.back();
      freeSlots.pop_back();
      Child& c = run[s];
      c = Child();
      c.from = w.from; c.to = w.to; c.single = w.single;
      c.limit = w.single ? spec.retryLimit : spec.caseLimit;
      c.slot = &slots[s];
      c.slot->current = -1; c.slot->started = now(); c.slot->done = w.from;
      std::string base = opt.scratchRoot + "/" + std::to_string(serial++);
      c.out = base + ".out"; c.err = base + ".err"; c.scratch = base + ".d";
      std::cout.flush();
      pid_t p = fork();
      if (p == 0) childMain(spec, opt, c);
      if (p < 0) { std::cerr << "fork failed\n"; return 3; }
      c.pid = p;
      active++;
    }
    // reap
    bool progressed = false;
    for (int s = 0; s < J; s++) {
      Child& c = run[s];
      if (!c.pid) continue;
      int st = 0;
      pid_t r = waitpid(c.pid, &st, WNOHANG);
      if (r == 0) {
        if (now() - c.slot->started > c.limit && !c.killed) { c.killed = true; c.inHarness = c.slot->inHarness > 0; kill(c.pid, SIGKILL); }
        continue;
      }
      progressed = true;
      collect(c);
      bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!clean) {
        long at = c.slot->done; // the case that did not complete
        if (c.killed) {
          if (c.single) {
            if (c.inHarness) inconclusive.push_back({{"case", at}, {"why", "the reference or the generator took too long"}});
            else if (spec.crashIsViolation)
              hangs++, violations.push_back({{"key", "hang"}, {"msg", "no answer within " + std::to_string((int)c.limit) + " s (second attempt, run alone)"}, {"case", at}, {"detail", json::object()}});
            else inconclusive.push_back({{"case", at}, {"why", "timeout"}});
          } else {
            queue.push_back({at + 1, c.to, false});
            queue.push_back({at, at + 1, true});
          }
        } else {
          std::string e = tail(c.err, 4000);
          if (spec.crashIsViolation)
            violations.push_back({{"key", crashKey(e, st)}, {"msg", "process died while running the case"}, {"case", at}, {"detail", {{"stderr", e}}}});
          else inconclusive.push_back({{"case", at}, {"why", e}});
          if (!c.single || at + 1 < c.to) queue.push_back({at + 1, c.to, false});
        }
      } else if (c.slot->done < c.to) {
        inconclusive.push_back({{"case", c.slot->done}, {"why", "child ended early"}});
      }
      if (opt.onlyCase < 0) {
        std::ifstream f(c.err);
        std::string line;
        while (std::getline(f, line)) if (line.rfind("HARNESS-ERROR", 0) == 0 && inconclusive.size() < 20) inconclusive.push_back({{"case", c.from}, {"why", line}});
        f.close();
        unlink(c.err.c_str());
      }
      removeTree(c.scratch);
      c.pid = 0;
      active--;
      freeSlots.push_back(s);
    }
    if (!progressed) usleep(2000);
  }
  json out;
  out["executed"] = executed;
  out["skipped"] = skipped;
  out["counts"] = counts;
  out["distinct"] = distinct.size();
  out["samples"] = samples;
  out["violations"] = violations;
  out["inconclusive"] = inconclusive;
  out["wall_s"] = now() - t0;
  std::ofstream f(opt.outFile);
  f << out.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
  f.close();
  return 0;
}
