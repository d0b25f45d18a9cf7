#include "vpsched.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <ctime>
#include <unistd.h>
#include <vector>

namespace {
enum class St { RUN, MUTEX, COND, JOIN, SLEEP, PRED, RD, WR, DONE };
struct Th {
  int id = 0;
  pthread_t self{};
  St st = St::RUN;
  void* obj = nullptr;     // mutex / cond / rwlock
  void* mtx = nullptr;
  Th* join = nullptr;
  bool timed = false, signaled = false, timedout = false;
  int64_t deadline = 0;
  const std::function<bool()>* pred = nullptr;
  double weight = 1;
  int prio = 0;
  sem_t sem;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
struct Rw { Th* writer = nullptr; std::map<Th*, int> readers; };
struct Sched {
  bool on = false;
  vp::SchedOptions opt;
  std::function<void(vp::Outcome, const std::string&)> hang;
  std::vector<Th*> ths;
  std::map<void*, Th*> owner;
  std::map<void*, int> depth;
  std::map<void*, Rw> rw;
  uint64_t rng = 1, steps = 0, hash = 1469598103934665603ull;
  int mode = 0, prio_low = 0;
  std::vector<uint64_t> changes;
  int64_t now = 1000000000000ll;
};
Sched S;
thread_local Th* me = nullptr;

template <typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
uint64_t rnd() { S.rng ^= S.rng << 13; S.rng ^= S.rng >> 7; S.rng ^= S.rng << 17; return S.rng * 2685821657736338717ull; }
double rnd01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

bool mutexFree(void* m, Th* t) { auto i = S.owner.find(m); return i == S.owner.end() || i->second == nullptr || i->second == t; }
bool enabled(Th* t) {
  switch (t->st) {
    case St::RUN: case St::SLEEP: return true;
    case St::MUTEX: { auto i = S.owner.find(t->obj); return i == S.owner.end() || !i->second; }
    case St::COND: return t->signaled || t->timed;
    case St::JOIN: return t->join->st == St::DONE;
    case St::PRED: return (*t->pred)();
    case St::RD: { auto& r = S.rw[t->obj]; return !r.writer; }
    case St::WR: { auto& r = S.rw[t->obj]; return !r.writer && r.readers.empty(); }
    case St::DONE: return false;
  }
  return false;
}
bool lazy(Th* t) { return t->st == St::SLEEP || (t->st == St::COND && !t->signaled); }

std::string describe() {
  std::string s;
  const char* n[] = {"run", "mutex", "cond", "join", "sleep", "pred", "rdlock", "wrlock", "done"};
  for (auto t : S.ths) s += "T" + std::to_string(t->id) + ":" + n[static_cast<int>(t->st)] + " ";
  return s;
}
void newThreadParams(Th* t) {
  t->weight = 1;
  if (S.mode == 1) { double u = rnd01() * 6; t->weight = 1; while (u > 1) { t->weight *= 3; u -= 1; } }
  t->prio = static_cast<int>(rnd() % 1000) + 1000;
}
Th* pick() {
  std::vector<Th*> en, lz;
  for (auto t : S.ths) if (enabled(t)) (lazy(t) ? lz : en).push_back(t);
  if (en.empty() && lz.empty()) return nullptr;
  if (S.mode == 2) {
    for (auto c : S.changes) if (c == S.steps && me) me->prio = S.prio_low--;
    if (en.empty() || (!lz.empty() && rnd() % 16 == 0)) return lz[rnd() % lz.size()];
    Th* b = en[0];
    for (auto t : en) if (t->prio > b->prio) b = t;
    // keeps the priority discipline fair: from time to time anyone may run
    if (rnd() % 64 == 0) b = en[rnd() % en.size()];
    return b;
  }
  if (en.empty() || (!lz.empty() && rnd() % 8 == 0)) return lz[rnd() % lz.size()];
  double tot = 0;
  for (auto t : en) tot += t->weight;
  double r = rnd01() * tot;
  for (auto t : en) { r -= t->weight; if (r <= 0) return t; }
  return en.back();
}
void wake(Th* t) {
  // the chosen thread is about to run: turn its blocking state into the fact that lets it go on
  if (t->st == St::COND) {
    if (!t->signaled) { t->timedout = true; if (t->deadline > S.now) S.now = t->deadline; }
  } else if (t->st == St::SLEEP) {
    if (t->deadline > S.now) S.now = t->deadline;
  }
}
void hang(vp::Outcome o) { auto h = S.hang; h(o, describe()); std::fflush(nullptr); _exit(98); }
void schedule(bool finishing = false) {
  if (++S.steps > S.opt.max_steps) hang(vp::Outcome::LIVELOCK);
  S.now += 1000;
  Th* n = pick();
  for (int i = 0; !n && i < 5000; ++i) {  // predicates with patience get several chances
    bool anyPred = false;
    for (auto t : S.ths) if (t->st == St::PRED) anyPred = true;
    if (!anyPred) break;
    n = pick();
  }
  if (!n) {
    bool alldone = true;
    for (auto t : S.ths) if (t->st != St::DONE) alldone = false;
    if (alldone) return;
    hang(vp::Outcome::DEADLOCK);
  }
  S.hash = (S.hash ^ static_cast<uint64_t>(n->id + 1)) * 1099511628211ull;
  wake(n);
  if (n == me) return;
  Th* self = me;
  sem_post(&n->sem);
  if (!finishing) while (sem_wait(&self->sem) != 0) {}
}
// Blocks the current thread in state st until the scheduler picks it
void block(St st) { me->st = st; schedule(); me->st = St::RUN; }
void lockMutex(void* m) {
  auto i = S.owner.find(m);
  if (i != S.owner.end() && i->second == me) { S.depth[m]++; return; }  // recursive
  me->obj = m;
  block(St::MUTEX);
  S.owner[m] = me;
  S.depth[m] = 1;
}
void unlockMutex(void* m) {
  if (--S.depth[m] > 0) return;
  S.owner.erase(m);
  S.depth.erase(m);
}
int condWait(void* c, void* m, bool timed, int64_t deadline) {
  int d = S.depth[m];
  S.depth[m] = 1;
  unlockMutex(m);
  me->obj = c; me->signaled = false; me->timedout = false; me->timed = timed; me->deadline = deadline;
  block(St::COND);
  int r = (timed && me->timedout) ? ETIMEDOUT : 0;
  lockMutex(m);
  S.depth[m] = d;
  return r;
}
void condSignal(void* c, bool all) {
  std::vector<Th*> w;
  for (auto t : S.ths) if (t->st == St::COND && t->obj == c && !t->signaled) w.push_back(t);
  if (w.empty()) return;
  if (all) { for (auto t : w) t->signaled = true; return; }
  w[rnd() % w.size()]->signaled = true;
}
int64_t ts2ns(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
void* trampoline(void* p) {
  Th* t = static_cast<Th*>(p);
  me = t;
  while (sem_wait(&t->sem) != 0) {}
  void* r = t->fn(t->arg);
  t->st = St::DONE;
  schedule(true);
  me = nullptr;
  return r;
}
void sleepFor(int64_t ns) { me->deadline = S.now + ns; block(St::SLEEP); }
}  // namespace

namespace vp {
bool controlled() { return me != nullptr; }
int threadId() { return me ? me->id : -1; }
uint64_t steps() { return S.steps; }
uint64_t schedHash() { return S.hash; }
int threadsSeen() { return static_cast<int>(S.ths.size()); }
void point() { if (me) schedule(); }
void waitUntil(const std::function<bool()>& p) { if (!me) return; me->pred = &p; block(St::PRED); }
void runControlled(const SchedOptions& o, const std::function<void()>& fn, const std::function<void(Outcome, const std::string&)>& onHang) {
  for (auto t : S.ths) { sem_destroy(&t->sem); delete t; }
  S = Sched();
  S.opt = o;
  S.hang = onHang;
  S.rng = o.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  if (!S.rng) S.rng = 1;
  for (int i = 0; i < 8; ++i) rnd();
  S.mode = o.mode >= 0 ? o.mode : static_cast<int>(rnd() % 3);
  if (S.mode == 2) { int k = 1 + rnd() % 4; for (int i = 0; i < k; ++i) S.changes.push_back(1 + rnd() % 400); }
  Th* t = new Th();
  t->self = pthread_self();
  sem_init(&t->sem, 0, 0);
  newThreadParams(t);
  S.ths.push_back(t);
  me = t;
  S.on = true;
  fn();
  // let every other thread finish
  t->st = St::RUN;
  std::function<bool()> rest = [t]() { for (auto x : S.ths) if (x != t && x->st != St::DONE) return false; return true; };
  waitUntil(rest);
  me = nullptr;
  S.on = false;
}
}  // namespace vp

extern "C" {
void vp_pool_point(const char*) { vp::point(); }

int pthread_create(pthread_t* th, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static F f = real<F>("pthread_create");
  if (!me) return f(th, a, fn, arg);
  Th* t = new Th();
  t->id = static_cast<int>(S.ths.size());
  t->fn = fn; t->arg = arg;
  sem_init(&t->sem, 0, 0);
  newThreadParams(t);
  int r = f(th, a, trampoline, t);
  if (r) { delete t; return r; }
  t->self = *th;
  S.ths.push_back(t);
  schedule();
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  using F = int (*)(pthread_t, void**);
  static F f = real<F>("pthread_join");
  if (me) {
    for (auto t : S.ths) if (t->id > 0 && pthread_equal(t->self, th) && t != me) {
      me->join = t;
      block(St::JOIN);
    }
    for (auto t : S.ths) if (pthread_equal(t->self, th)) t->self = pthread_t{};
  }
  return f(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  using F = int (*)(pthread_mutex_t*);
  static F f = real<F>("pthread_mutex_lock");
  if (!me) return f(m);
  lockMutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  using F = int (*)(pthread_mutex_t*);
  static F f = real<F>("pthread_mutex_trylock");
  if (!me) return f(m);
  schedule();
  if (!mutexFree(m, nullptr)) return EBUSY;
  S.owner[m] = me; S.depth[m] = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  using F = int (*)(pthread_mutex_t*);
  static F f = real<F>("pthread_mutex_unlock");
  if (!me || !S.owner.count(m)) return f(m);
  unlockMutex(m);
  schedule();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*);
  static F f = real<F>("pthread_cond_wait");
  if (!me) return f(c, m);
  return condWait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
  static F f = real<F>("pthread_cond_timedwait");
  if (!me) return f(c, m, t);
  return condWait(c, m, true, ts2ns(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  static F f = real<F>("pthread_cond_clockwait");
  if (!me) return f(c, m, k, t);
  return condWait(c, m, true, ts2ns(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
  using F = int (*)(pthread_cond_t*);
  static F f = real<F>("pthread_cond_signal");
  if (!me) return f(c);
  condSignal(c, false);
  schedule();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  using F = int (*)(pthread_cond_t*);
  static F f = real<F>("pthread_cond_broadcast");
  if (!me) return f(c);
  condSignal(c, true);
  schedule();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  using F = int (*)(pthread_rwlock_t*);
  static F f = real<F>("pthread_rwlock_rdlock");
  if (!me) return f(l);
  me->obj = l;
  block(St::RD);
  S.rw[l].readers[me]++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  using F = int (*)(pthread_rwlock_t*);
  static F f = real<F>("pthread_rwlock_wrlock");
  if (!me) return f(l);
  me->obj = l;
  block(St::WR);
  S.rw[l].writer = me;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  using F = int (*)(pthread_rwlock_t*);
  static F f = real<F>("pthread_rwlock_tryrdlock");
  if (!me) return f(l);
  schedule();
  if (S.rw[l].writer) return EBUSY;
  S.rw[l].readers[me]++;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  using F = int (*)(pthread_rwlock_t*);
  static F f = real<F>("pthread_rwlock_trywrlock");
  if (!me) return f(l);
  schedule();
  auto& r = S.rw[l];
  if (r.writer || !r.readers.empty()) return EBUSY;
  r.writer = me;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  using F = int (*)(pthread_rwlock_t*);
  static F f = real<F>("pthread_rwlock_unlock");
  if (!me) return f(l);
  auto& r = S.rw[l];
  if (r.writer == me) r.writer = nullptr;
  else if (--r.readers[me] <= 0) r.readers.erase(me);
  schedule();
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
  using F = int (*)(const timespec*, timespec*);
  static F f = real<F>("nanosleep");
  if (!me) return f(t, rem);
  sleepFor(ts2ns(t));
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec* rem) {
  using F = int (*)(clockid_t, int, const timespec*, timespec*);
  static F f = real<F>("clock_nanosleep");
  if (!me) return f(k, flags, t, rem);
  sleepFor((flags & TIMER_ABSTIME) ? ts2ns(t) - S.now : ts2ns(t));
  return 0;
}
int usleep(useconds_t u) {
  using F = int (*)(useconds_t);
  static F f = real<F>("usleep");
  if (!me) return f(u);
  sleepFor(u * 1000ll);
  return 0;
}
int sched_yield() {
  using F = int (*)();
  static F f = real<F>("sched_yield");
  if (!me) return f();
  sleepFor(0);
  return 0;
}
int clock_gettime(clockid_t k, timespec* t) {
  using F = int (*)(clockid_t, timespec*);
  static F f = real<F>("clock_gettime");
  if (!me) return f(k, t);
  t->tv_sec = S.now / 1000000000ll;
  t->tv_nsec = S.now % 1000000000ll;
  return 0;
}
}
