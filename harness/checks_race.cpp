// C14 in this process under ThreadSanitizer: several threads run requests on one TransitData and one walking filter,
// as the server's handlers do, while lock operations, atomics and function entries are delayed by a seeded schedule.
#include "checks.hpp"
#include "common.hpp"
#include "live.hpp"
#include "perturb.hpp"
#include "sut.hpp"
#include <atomic>
#include <mutex>
#include <pthread.h>
#include <thread>

using nlohmann::json;
using namespace m;
using namespace cc;

extern "C" {
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
int __tsan_get_report_stack(void* report, unsigned long idx, void** trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, unsigned long size);
void __tsan_on_report(void* rep);
}

namespace {
struct Report { std::string what; std::vector<std::vector<void*>> stacks; };
const int MAXREP = 8;
int reps = 0;
Report rep[MAXREP];
std::string frame(void* pc) {
  char b[512] = {0};
  __sanitizer_symbolize_pc(pc, "%f %S", b, sizeof b - 1);
  return b;
}
// the innermost functions of the code under test on each stack
std::string nameOf(const Report& r, std::string& text) {
  std::vector<std::string> names;
  for (auto& st : r.stacks) {
    std::string own;
    for (void* pc : st) {
      std::string f = frame(pc);
      text += "    " + f + "\n";
      if (own.empty() && f.find("TrRouting::") != std::string::npos) { own = f.substr(f.find("TrRouting::"), f.find_first_of("(<[ ", f.find("TrRouting::") + 11) - f.find("TrRouting::")); }
    }
    text += "    --\n";
    if (!own.empty()) names.push_back(own);
  }
  std::sort(names.begin(), names.end());
  names.erase(std::unique(names.begin(), names.end()), names.end());
  std::string s;
  for (auto& n : names) s += "@" + n;
  return s;
}
void caseC14(Case& c) {
  gen::Cfg k = cfgFor(c);
  k.scenarios = c.rng.range(2, 6);
  const Dataset d = gen::dataset(c.rng, k);
  std::vector<Query> qs;
  std::vector<json> base;
  {
    Sut idle(d);
    for (int i = 0; i < 60 && qs.size() < 12; i++) {
      Query q = anyQuery(c, d);
      if (skipZero(d, q)) continue;
      json a = canonical(idle.ask(q));
      if (a.value("status", "") != "success" && c.rng.chance(i < 40 ? 0.7 : 0.0)) continue;
      qs.push_back(q);
      base.push_back(a);
    }
  }
  if (qs.size() < 2) return;
  std::set<int> scen;
  for (auto& q : qs) scen.insert(q.scenario);
  const int rounds = c.thorough ? 12 : 5;
  for (int round = 0; round < rounds; round++) {
    SutOptions o;
    o.cacheAll = c.rng.chance(0.3);
    Sut s(d, o);
    const int nt = c.rng.range(2, 6), len = c.rng.range(4, 14);
    const bool herd = c.rng.chance(0.3), pingpong = c.rng.chance(0.3);
    std::vector<std::vector<int>> plan(nt);
    for (int t = 0; t < nt; t++)
      for (int i = 0; i < len; i++) {
        int x = c.rng.range(0, (int)qs.size() - 1);
        if (herd) x = i % qs.size();
        else if (pingpong) for (int n = 0; n < 8 && i > 0 && qs[x].scenario == qs[plan[t][i - 1]].scenario; n++) x = c.rng.range(0, (int)qs.size() - 1);
        plan[t].push_back(x);
      }
    static const int modes[] = {0, PERTURB_LOCKS, PERTURB_LOCKS | PERTURB_CODE, PERTURB_PARK, PERTURB_PARK | PERTURB_CODE, PERTURB_CODE};
    const int mode = modes[c.rng.range(0, 5)];
    std::vector<std::vector<json>> got(nt);
    for (auto& g : got) g.resize(len);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, nt);
    const uint64_t p0 = perturbPoints(), w0 = perturbPauses(), k0 = perturbParks();
    perturbStart(mode, c.rng.next());
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++)
      th.emplace_back([&, t] {
        pthread_barrier_wait(&bar);
        perturbThread(true);
        for (int i = 0; i < len; i++) got[t][i] = s.ask(qs[plan[t][i]]);
        perturbThread(false);
      });
    for (auto& t : th) t.join();
    pthread_barrier_destroy(&bar);
    perturbStop();
    c.count("rounds");
    c.count("lock_operations", perturbPoints() - p0);
    c.count("injected_pauses", perturbPauses() - w0);
    c.count("parked_threads", perturbParks() - k0);
    c.seen(perturbTrace() ^ (uint64_t)mode * 77 ^ fnv(std::to_string(c.index)));
    c.count(scen.size() > 1 ? "rounds_with_several_scenarios" : "rounds_with_one_scenario");
    const json ctx = {{"dataset", toJson(d)}, {"threads", nt}, {"cacheAll", o.cacheAll}, {"mode", mode}};
    for (int t = 0; t < nt; t++)
      for (int i = 0; i < len; i++) {
        c.count("concurrent_answers");
        json a = canonical(got[t][i]);
        if (a == base[plan[t][i]]) continue;
        c.violation("concurrent-differs", "with " + std::to_string(nt) + " threads the request " + qs[plan[t][i]].url(d) + " is answered differently than alone: " + json::diff(base[plan[t][i]], a).dump().substr(0, 400), {{"alone", base[plan[t][i]]}, {"concurrent", a}, {"context", ctx}});
        return;
      }
    for (size_t i = 0; i < qs.size(); i++) {
      c.count("answers_afterwards");
      json a = canonical(s.ask(qs[i]));
      if (a == base[i]) continue;
      c.violation("later-differs", "after concurrent requests " + qs[i].url(d) + " is answered differently: " + json::diff(base[i], a).dump().substr(0, 400), {{"alone", base[i]}, {"later", a}, {"context", ctx}});
      return;
    }
    for (int i = 0; i < reps && i < MAXREP; i++) {
      std::string text;
      const std::string n = nameOf(rep[i], text);
      c.violation("tsan:" + rep[i].what + n, "ThreadSanitizer reports a " + rep[i].what + " " + n, {{"stacks", text.substr(0, 4000)}, {"context", ctx}});
    }
    if (reps) { reps = 0; return; }
  }
  c.sample({{"queries", qs.size()}, {"scenarios", scen.size()}, {"first", qs[0].url(d)}});
}
} // namespace

void __tsan_on_report(void* r) {
  if (reps >= MAXREP) return;
  Report& x = rep[reps];
  x.stacks.clear();
  const char* desc = "";
  int count, stacks, mops, locs, mutexes, threads, uniq;
  void* sleep[1];
  __tsan_get_report_data(r, &desc, &count, &stacks, &mops, &locs, &mutexes, &threads, &uniq, sleep, 1);
  x.what = desc ? desc : "report";
  for (int i = 0; i < mops; i++) {
    int tid, size, write, atomic;
    void* addr;
    void* tr[24] = {nullptr};
    __tsan_get_report_mop(r, i, &tid, &addr, &size, &write, &atomic, tr, 24);
    std::vector<void*> v;
    for (void* p : tr) { if (!p) break; v.push_back(p); }
    x.stacks.push_back(v);
  }
  reps++;
}

bool raceCheck(const std::string& prop, RunSpec& s) {
  s.prop = prop;
  s.batch = 4;
  s.jobs = 6;
  s.caseLimit = 60;
  s.retryLimit = 100;
  if (prop == "C14calc") s.fn = caseC14;
  else return false;
  return true;
}
