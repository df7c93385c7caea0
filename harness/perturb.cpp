// Schedule perturbation for the ThreadSanitizer builds. This file is compiled without instrumentation, so nothing in
// it orders the threads for the race detector; it only delays them. The linker routes the lock operations, the atomic
// operations and the function entries of all instrumented code through here (--wrap), which needs no change in /repo.
#include "perturb.hpp"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace {
std::atomic<int> mode{0};
std::atomic<uint64_t> seed{1};
std::atomic<uint32_t> generation{1}, ordinals{0}, logged{0};
std::atomic<uint64_t> points{0}, pauses{0}, parks{0};
const uint32_t LOG = 1 << 16;
uint16_t logbuf[LOG];
bool everywhere = false;

struct T {
  uint32_t gen;
  uint32_t id;
  int on;
  int busy;
  uint64_t rng;
  int64_t countdown;
  uint32_t point, parkAt, parkFor;
};
thread_local T t;

uint64_t next() {
  t.rng ^= t.rng << 13;
  t.rng ^= t.rng >> 7;
  t.rng ^= t.rng << 17;
  return t.rng;
}
void fresh() {
  const uint32_t g = generation.load(std::memory_order_relaxed);
  if (t.gen == g) return;
  t.gen = g;
  t.id = ordinals.fetch_add(1, std::memory_order_relaxed);
  t.rng = (seed.load(std::memory_order_relaxed) + 1) * 0x9E3779B97F4A7C15ull + (t.id + 1) * 0xBF58476D1CE4E5B9ull;
  for (int i = 0; i < 4; i++) next();
  t.countdown = 1 + next() % 20000;
  t.point = 0;
  t.parkAt = next() % 24;
  t.parkFor = 2 + next() % 60;
}
void nap(long us) {
  pauses.fetch_add(1, std::memory_order_relaxed);
  if (us <= 0) { sched_yield(); return; }
  struct timespec ts = {0, us * 1000};
  nanosleep(&ts, nullptr);
}
bool active() { return (t.on || everywhere) && !t.busy && mode.load(std::memory_order_relaxed) != 0; }

void lockPoint(int kind) {
  if (!active()) return;
  t.busy = 1;
  fresh();
  const int m = mode.load(std::memory_order_relaxed);
  const uint64_t now = points.fetch_add(1, std::memory_order_relaxed);
  const uint32_t i = logged.fetch_add(1, std::memory_order_relaxed);
  if (i < LOG) logbuf[i] = (uint16_t)((t.id << 4) | kind);
  if ((m & PERTURB_PARK) && t.point == t.parkAt) {
    // hold this thread here while the others pass some more points
    parks.fetch_add(1, std::memory_order_relaxed);
    for (int n = 0; n < 400 && points.load(std::memory_order_relaxed) < now + t.parkFor; n++) { struct timespec ts = {0, 50000}; nanosleep(&ts, nullptr); }
    t.parkAt = t.point + 1 + next() % 60;
    t.parkFor = 2 + next() % 60;
  } else if ((m & PERTURB_LOCKS) && next() % 4 == 0) nap((long)(next() % 3 == 0 ? 0 : next() % 300));
  t.point++;
  t.busy = 0;
}
inline void tick() {
  if (!active() || !(mode.load(std::memory_order_relaxed) & PERTURB_CODE)) return;
  t.busy = 1;
  fresh();
  if (--t.countdown <= 0) {
    t.countdown = 1 + next() % (next() % 8 == 0 ? 200000 : 6000);
    nap((long)(next() % 2 ? 0 : next() % 200));
  }
  t.busy = 0;
}
struct Init {
  Init() {
    if (const char* e = getenv("VERIF_PERTURB")) {
      int m = 0;
      unsigned long long s = 1;
      if (sscanf(e, "%d,%llu", &m, &s) >= 1) { everywhere = true; seed = s; mode = m; }
    }
  }
} init;
} // namespace

void perturbStart(int m, uint64_t s) {
  seed = s;
  ordinals = 0;
  logged = 0;
  generation++;
  mode = m;
}
void perturbStop() { mode = 0; }
void perturbThread(bool on) { t.on = on; }
uint64_t perturbPoints() { return points; }
uint64_t perturbPauses() { return pauses; }
uint64_t perturbParks() { return parks; }
uint64_t perturbTrace() {
  uint64_t h = 1469598103934665603ull;
  uint32_t n = logged;
  if (n > LOG) n = LOG;
  for (uint32_t i = 0; i < n; i++) { h ^= logbuf[i]; h *= 1099511628211ull; }
  return h;
}

extern "C" {
#define LOCK1(name, type, before, after) \
  int __real_##name(type*); \
  int __wrap_##name(type* x) { if (before >= 0) lockPoint(before); int r = __real_##name(x); if (after >= 0) lockPoint(after); return r; }
LOCK1(pthread_mutex_lock, pthread_mutex_t, 0, -1)
LOCK1(pthread_mutex_trylock, pthread_mutex_t, 0, -1)
LOCK1(pthread_mutex_unlock, pthread_mutex_t, -1, 1)
LOCK1(pthread_rwlock_rdlock, pthread_rwlock_t, 2, -1)
LOCK1(pthread_rwlock_wrlock, pthread_rwlock_t, 3, -1)
LOCK1(pthread_rwlock_tryrdlock, pthread_rwlock_t, 2, -1)
LOCK1(pthread_rwlock_trywrlock, pthread_rwlock_t, 3, -1)
LOCK1(pthread_rwlock_unlock, pthread_rwlock_t, -1, 4)

void __real___tsan_func_entry(void*);
void __wrap___tsan_func_entry(void* pc) { __real___tsan_func_entry(pc); tick(); }

#define ATOMIC(bits, type) \
  type __real___tsan_atomic##bits##_load(const volatile type*, int); \
  type __wrap___tsan_atomic##bits##_load(const volatile type* a, int mo) { tick(); return __real___tsan_atomic##bits##_load(a, mo); } \
  void __real___tsan_atomic##bits##_store(volatile type*, type, int); \
  void __wrap___tsan_atomic##bits##_store(volatile type* a, type v, int mo) { tick(); __real___tsan_atomic##bits##_store(a, v, mo); tick(); }
ATOMIC(8, char)
ATOMIC(32, int)
ATOMIC(64, long)
}
