// An OpenMP runtime that runs one worker at a time and switches only at synchronisation points, in an
// order given by the schedule: for the k-th interval between completed barriers, a priority list of workers.
// Only the entry points the solver's object files refer to are provided (see obs_run's link step).
#pragma once
#include <pthread.h>
#include <condition_variable>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
namespace sched {
enum St { RUN, BAR, LOCK, JOIN, NESTED, DONE };
struct Team;
struct W { Team* team; int id; St st = RUN; int singles = 0; const void* lock = nullptr; bool claim = false; std::string trace; std::condition_variable cv; };
struct Team { int n; int at = 0, done = 0, single = 0; std::vector<W*> w; };
inline std::mutex M;
inline std::vector<W*> live;
inline W* running = nullptr;
inline thread_local W* cur = nullptr;
inline thread_local std::vector<W*> stack;
struct List { std::vector<int> p; bool hold; };
inline std::vector<List> lists;
inline long nbar = 0, choices = 0, nsingle = 0;
inline int nthreads = 1, limit = 1 << 20, depth_max = 0;
inline std::map<const void*, bool> held;
inline std::vector<std::string> divergences;
inline std::string deadlock;
inline void (*on_deadlock)() = nullptr;
inline int key(const W* w) {
  if (lists.empty()) return w->id;
  const auto& l = lists[nbar % lists.size()];
  int k = (int)l.p.size() + w->id;
  for (size_t i = 0; i < l.p.size(); ++i) if (l.p[i] == w->id) k = (int)i;
  return k + (l.hold && w->claim ? 1000000 : 0);  // one that won a "single" is held back
}
inline void pick() {  // M held
  W* best = nullptr; int cand = 0;
  for (W* w : live) if (w->st == RUN) { ++cand; if (!best || key(w) < key(best)) best = w; }
  if (!best) {
    for (W* w : live) { static const char* n[] = {"run", "barrier", "lock", "end of the region", "nested", "done"}; deadlock += "worker " + std::to_string(w->id) + " of " + std::to_string(w->team->n) + " waits at: " + n[w->st] + "; "; }
    if (on_deadlock) on_deadlock();
    _exit(42);
  }
  if (cand > 1) ++choices;
  running = best; best->cv.notify_all();
}
inline void wait(std::unique_lock<std::mutex>& l, W* me) { me->cv.wait(l, [me] { return running == me; }); }
inline void yield() { if (!cur || cur->team->n == 1) return; std::unique_lock<std::mutex> l(M); W* me = cur; pick(); wait(l, me); }
inline void lockon(const void* a) {
  std::unique_lock<std::mutex> l(M); W* me = cur;
  if (me) { pick(); wait(l, me); }
  while (held[a]) { if (!me) break; me->st = LOCK; me->lock = a; pick(); wait(l, me); }
  held[a] = true;
}
inline void unlockon(const void* a) {
  std::unique_lock<std::mutex> l(M); held[a] = false;
  for (W* w : live) if (w->st == LOCK && w->lock == a) { w->st = RUN; w->lock = nullptr; }
}
}  // namespace sched
extern "C" {
using namespace sched;
static char vp_crit, vp_atom;
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  std::unique_lock<std::mutex> l(M);
  if (!n) n = nthreads;
  int others = 0; for (W* w : live) if (w->st != NESTED && w->st != DONE) ++others;
  if (others + (int)n > limit + (cur ? 1 : 0)) n = std::max(1, limit + (cur ? 1 : 0) - others);
  Team t; t.n = n; W* parent = cur; if (parent) parent->st = NESTED;
  std::vector<std::thread> th;
  for (unsigned i = 0; i < n; ++i) { W* w = new W; w->team = &t; w->id = i; t.w.push_back(w); live.push_back(w); }
  for (unsigned i = 1; i < n; ++i) th.emplace_back([&, i] {
    W* me = t.w[i];
    { std::unique_lock<std::mutex> k(M); cur = me; wait(k, me); }
    fn(data);
    std::unique_lock<std::mutex> k(M); me->st = DONE; t.done++;
    if (t.done == t.n - 1 && t.w[0]->st == JOIN) t.w[0]->st = RUN;
    cur = nullptr; pick();
  });
  W* me = t.w[0]; cur = me; pick(); wait(l, me); l.unlock();
  fn(data);
  l.lock();
  if (t.done < t.n - 1) { me->st = JOIN; pick(); wait(l, me); }
  l.unlock(); for (auto& x : th) x.join(); l.lock();
  for (int i = 1; i < t.n; ++i) if (t.w[i]->trace != t.w[0]->trace) {
    size_t k = 0; while (k < t.w[i]->trace.size() && k < t.w[0]->trace.size() && t.w[i]->trace[k] == t.w[0]->trace[k]) ++k;
    if (divergences.size() < 5) divergences.push_back("workers 0 and " + std::to_string(i) + " of " + std::to_string(t.n) + " meet different constructs at position " + std::to_string(k));
  }
  for (W* w : t.w) { for (size_t k = 0; k < live.size(); ++k) if (live[k] == w) { live.erase(live.begin() + k); break; } delete w; }
  cur = parent; if (parent) { parent->st = RUN; running = parent; } else running = nullptr;
}
void GOMP_barrier() {
  std::unique_lock<std::mutex> l(M); W* me = cur; if (!me) return;
  Team* t = me->team; me->trace += 'b'; if (t->n == 1) { ++nbar; return; }
  me->st = BAR;
  if (++t->at == t->n) { t->at = 0; ++nbar; for (W* w : t->w) if (w->st == BAR) w->st = RUN; }
  pick(); wait(l, me);
}
bool GOMP_single_start() {
  yield();
  std::unique_lock<std::mutex> l(M); W* me = cur; if (!me) return true;
  me->trace += 's';
  if (me->singles++ == me->team->single) {
    me->team->single++; ++nsingle;
    if (me->team->n > 1) { me->claim = true; pick(); wait(l, me); me->claim = false; }
    return true;
  }
  return false;
}
void GOMP_critical_start() { lockon(&vp_crit); }
void GOMP_critical_end() { unlockon(&vp_crit); }
void GOMP_critical_name_start(void** p) { lockon(p); }
void GOMP_critical_name_end(void** p) { unlockon(p); }
void GOMP_atomic_start() { lockon(&vp_atom); }
void GOMP_atomic_end() { unlockon(&vp_atom); }
int omp_get_num_threads() { return cur ? cur->team->n : 1; }
int omp_get_thread_num() { return cur ? cur->id : 0; }
int omp_get_max_threads() { return nthreads; }
void omp_set_num_threads(int n) { nthreads = n > 0 ? n : 1; }
int omp_get_thread_limit() { return limit; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return cur && cur->team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 2; }
int omp_get_level() { return cur ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (m == M.native_handle()) return __real_pthread_mutex_lock(m); lockon(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (m == M.native_handle()) return __real_pthread_mutex_unlock(m); unlockon(m); return 0; }
}
