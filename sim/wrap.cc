// Thread, synchronisation and clock calls of the system under test, served by the simulator.
#include <semaphore.h>
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <ctime>
#include <arpa/inet.h>
#include <netdb.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim { void tick(Time); }
using namespace sim;

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
#define WRAP(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

namespace {
struct Mtx { Thread* owner = nullptr; int count = 0; };
struct Cnd { std::vector<Thread*> waiters; };
std::map<sem_t*, unsigned> sems;
struct Rw { Thread* w = nullptr; int readers = 0; };
std::unordered_map<void*, Mtx> mtxs;
std::unordered_map<void*, Cnd> cnds;
std::unordered_map<void*, Rw> rws;
std::unordered_map<void*, Thread*> onces;

const Time EPOCH = 1700000000LL * SEC;

int kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

int lock_mutex(pthread_mutex_t* m, Time deadline)
{
  Thread* me = self();
  Mtx* x = &mtxs[m];
  if (x->owner == me) {
    if (kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { x->count++; return 0; }
    if (kind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
  }
  if (x->owner) {
    probe("mutex_contended");
    if (!block([m] { return mtxs[m].owner == nullptr; }, deadline, "mutex")) return ETIMEDOUT;
    x = &mtxs[m];
  }
  x->owner = me; x->count = 1;
  return 0;
}
int unlock_mutex(pthread_mutex_t* m)
{
  Mtx& x = mtxs[m];
  if (x.owner != self()) {
    if (kind(m) == PTHREAD_MUTEX_NORMAL || kind(m) == PTHREAD_MUTEX_ADAPTIVE_NP) {
      if (!x.owner) return 0;   // locked before the simulation started, or misuse without effect
      violation("mutex-misuse", "unlock of a mutex held by %s", x.owner->name.c_str());
    }
    return EPERM;
  }
  if (--x.count == 0) x.owner = nullptr;
  return 0;
}
Time abs_to_sim(const timespec* ts, clockid_t c)
{
  Time t = (Time)ts->tv_sec * SEC + ts->tv_nsec;
  return c == CLOCK_REALTIME ? t - EPOCH - wall_offset() : t;
}
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, Time deadline)
{
  Thread* me = self();
  log("cond wait");
  me->cond_signaled = false;
  cnds[c].waiters.push_back(me);
  unlock_mutex(m);
  if (knobs.spurious_permille && faults_on() && chance(S_FAULT, knobs.spurious_permille)) {
    Time d = choose(S_FAULT, 2000) * US;
    after(d, [me, c] {
      for (Thread* t : cnds[c].waiters) if (t == me && !me->cond_signaled) { me->cond_signaled = true; fault(F_SPURIOUS); return; }
    });
  }
  bool ok = block([me] { return me->cond_signaled; }, deadline, "cond");
  std::vector<Thread*>& w = cnds[c].waiters;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] == me) { w.erase(w.begin() + i); break; }
  lock_mutex(m, NEVER);
  return ok ? 0 : ETIMEDOUT;
}
timespec to_ts(Time t) { timespec ts; ts.tv_sec = t / SEC; ts.tv_nsec = t % SEC; return ts; }
Time clk(clockid_t c)
{
  switch (c) {
  case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return EPOCH + now() + wall_offset();
  default: return now();
  }
}
} // namespace

REAL(int, pthread_mutex_lock, pthread_mutex_t*);
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*);
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
REAL(int, pthread_cond_signal, pthread_cond_t*);
REAL(int, pthread_cond_broadcast, pthread_cond_t*);
REAL(int, pthread_cond_destroy, pthread_cond_t*);
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
REAL(int, pthread_join, pthread_t, void**);
REAL(int, pthread_detach, pthread_t);
REAL(int, pthread_once, pthread_once_t*, void (*)());
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_destroy, pthread_rwlock_t*);
REAL(int, pthread_rwlock_timedrdlock, pthread_rwlock_t*, const timespec*);
REAL(int, pthread_rwlock_timedwrlock, pthread_rwlock_t*, const timespec*);
REAL(int, pthread_rwlock_clockrdlock, pthread_rwlock_t*, clockid_t, const timespec*);
REAL(int, pthread_rwlock_clockwrlock, pthread_rwlock_t*, clockid_t, const timespec*);
REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*);
REAL(int, pthread_spin_lock, pthread_spinlock_t*);
REAL(int, pthread_spin_trylock, pthread_spinlock_t*);
REAL(int, pthread_spin_unlock, pthread_spinlock_t*);
REAL(int, sem_clockwait, sem_t*, clockid_t, const timespec*);
REAL(int, sem_init, sem_t*, int, unsigned);
REAL(int, sem_destroy, sem_t*);
REAL(int, sem_wait, sem_t*);
REAL(int, sem_timedwait, sem_t*, const timespec*);
REAL(int, sem_trywait, sem_t*);
REAL(int, sem_post, sem_t*);
REAL(int, sched_yield, void);
REAL(int, nanosleep, const timespec*, timespec*);
REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*);
REAL(int, usleep, useconds_t);
REAL(unsigned, sleep, unsigned);
REAL(time_t, time, time_t*);
REAL(int, gettimeofday, timeval*, void*);
REAL(int, clock_gettime, clockid_t, timespec*);
REAL(int, __cxa_guard_acquire, uint64_t*);
REAL(void, __cxa_guard_release, uint64_t*);
REAL(void, __cxa_guard_abort, uint64_t*);

WRAP(int, pthread_mutex_lock, pthread_mutex_t* m)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_mutex_lock(m);
  yield("mutex_lock");
  return lock_mutex(m, NEVER);
}
WRAP(int, pthread_mutex_trylock, pthread_mutex_t* m)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_mutex_trylock(m);
  yield("mutex_trylock");
  Mtx& x = mtxs[m];
  if (x.owner && !(x.owner == self() && kind(m) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
  return lock_mutex(m, NEVER);
}
WRAP(int, pthread_mutex_timedlock, pthread_mutex_t* m, const timespec* ts)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_mutex_timedlock(m, ts);
  yield("mutex_timedlock");
  return lock_mutex(m, abs_to_sim(ts, CLOCK_REALTIME));
}
WRAP(int, pthread_mutex_clocklock, pthread_mutex_t* m, clockid_t ck, const timespec* ts)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_mutex_clocklock(m, ck, ts);
  yield("mutex_timedlock");
  return lock_mutex(m, abs_to_sim(ts, ck));
}
WRAP(int, pthread_mutex_unlock, pthread_mutex_t* m)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_mutex_unlock(m);
  int r = unlock_mutex(m);
  yield("mutex_unlock");
  return r;
}
WRAP(int, pthread_mutex_destroy, pthread_mutex_t* m)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_mutex_destroy(m);
  auto i = mtxs.find(m);
  if (i != mtxs.end()) { if (i->second.owner) return EBUSY; mtxs.erase(i); }
  return 0;
}
WRAP(int, pthread_cond_wait, pthread_cond_t* c, pthread_mutex_t* m)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_cond_wait(c, m);
  yield("cond_wait");
  return cond_wait(c, m, NEVER);
}
WRAP(int, pthread_cond_timedwait, pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_cond_timedwait(c, m, ts);
  yield("cond_wait");
  // the clock attribute: bit 1 of __flags selects CLOCK_MONOTONIC
  return cond_wait(c, m, abs_to_sim(ts, (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME));
}
WRAP(int, pthread_cond_clockwait, pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const timespec* ts)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_cond_clockwait(c, m, ck, ts);
  yield("cond_wait");
  return cond_wait(c, m, abs_to_sim(ts, ck));
}
WRAP(int, pthread_cond_signal, pthread_cond_t* c)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_cond_signal(c);
  yield("cond_signal");
  auto i = cnds.find(c);
  if (i != cnds.end()) {
    std::vector<Thread*> w;
    for (Thread* t : i->second.waiters) if (!t->cond_signaled) w.push_back(t);
    if (!w.empty()) { Thread* t = w[choose(S_SCHED, (uint32_t)w.size())]; t->cond_signaled = true; log("signal %s", t->name.c_str()); }
    else log("signal nobody");
  }
  yield("cond_signalled");
  return 0;
}
WRAP(int, pthread_cond_broadcast, pthread_cond_t* c)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_cond_broadcast(c);
  yield("cond_broadcast");
  auto i = cnds.find(c);
  if (i != cnds.end()) { log("broadcast %zu", i->second.waiters.size()); for (Thread* t : i->second.waiters) t->cond_signaled = true; }
  yield("cond_broadcasted");
  return 0;
}
WRAP(int, pthread_cond_destroy, pthread_cond_t* c)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_cond_destroy(c);
  cnds.erase(c);
  return 0;
}
WRAP(int, pthread_create, pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_create(p, a, fn, arg);
  if (!self()->foreign && knobs.thread_err_permille && faults_on() && chance(S_FAULT, knobs.thread_err_permille)) { fault(F_THREAD_ERR); log("create EAGAIN"); return EAGAIN; }
  int st = PTHREAD_CREATE_JOINABLE;
  if (a) pthread_attr_getdetachstate(a, &st);
  unsigned long h;
  int id = create_thread("", fn, arg, nullptr, self()->host, self()->foreign, &h);
  threads()[id]->detached = st == PTHREAD_CREATE_DETACHED;
  *p = h;
  log("create %d", id);
  yield("thread_create");
  return 0;
}
static Thread* by_handle(pthread_t p)
{
  Thread* r = nullptr;
  for (Thread* t : threads()) if (t->pth == p && !t->joined) r = t;
  return r;
}
WRAP(int, pthread_join, pthread_t p, void** ret)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_join(p, ret);
  yield("thread_join");
  Thread* t = by_handle(p);
  if (!t) return ESRCH;
  if (t == self()) return EDEADLK;
  block([t] { return t->done; }, NEVER, "join");
  if (ret) *ret = t->ret;
  t->joined = true;
  log("joined %d", t->id);
  __real_pthread_join(p, nullptr);
  return 0;
}
WRAP(int, pthread_detach, pthread_t p)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_detach(p);
  if (Thread* t = by_handle(p)) t->detached = true;   // the OS thread stays joinable so that its handle is not reused
  return 0;
}
WRAP(int, pthread_once, pthread_once_t* o, void (*f)())
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_once(o, f);
  if (*o == 2) return 0;
  auto i = onces.find(o);
  if (i != onces.end() && i->second != self()) { block([o] { return *o == 2; }, NEVER, "once"); return 0; }
  onces[o] = self();
  f();
  *o = 2;
  return 0;
}
static int rw_lock(pthread_rwlock_t* l, bool write, bool tr, Time dl = NEVER)
{
  auto free = [l, write] { Rw& x = rws[l]; return !x.w && (!write || !x.readers); };
  if (!free()) { if (tr) return EBUSY; if (!block(free, dl, "rwlock")) return ETIMEDOUT; }
  Rw& x = rws[l];
  if (write) x.w = self(); else x.readers++;
  return 0;
}
WRAP(int, pthread_rwlock_rdlock, pthread_rwlock_t* l) { Quiet q_; return in_sim() ? rw_lock(l, false, false) : __real_pthread_rwlock_rdlock(l); }
WRAP(int, pthread_rwlock_wrlock, pthread_rwlock_t* l) { Quiet q_; return in_sim() ? rw_lock(l, true, false) : __real_pthread_rwlock_wrlock(l); }
WRAP(int, pthread_rwlock_tryrdlock, pthread_rwlock_t* l) { Quiet q_; return in_sim() ? rw_lock(l, false, true) : __real_pthread_rwlock_tryrdlock(l); }
WRAP(int, pthread_rwlock_trywrlock, pthread_rwlock_t* l) { Quiet q_; return in_sim() ? rw_lock(l, true, true) : __real_pthread_rwlock_trywrlock(l); }
WRAP(int, pthread_rwlock_timedrdlock, pthread_rwlock_t* l, const timespec* ts) { Quiet q_; return in_sim() ? rw_lock(l, false, false, abs_to_sim(ts, CLOCK_REALTIME)) : __real_pthread_rwlock_timedrdlock(l, ts); }
WRAP(int, pthread_rwlock_timedwrlock, pthread_rwlock_t* l, const timespec* ts) { Quiet q_; return in_sim() ? rw_lock(l, true, false, abs_to_sim(ts, CLOCK_REALTIME)) : __real_pthread_rwlock_timedwrlock(l, ts); }
WRAP(int, pthread_rwlock_clockrdlock, pthread_rwlock_t* l, clockid_t ck, const timespec* ts) { Quiet q_; return in_sim() ? rw_lock(l, false, false, abs_to_sim(ts, ck)) : __real_pthread_rwlock_clockrdlock(l, ck, ts); }
WRAP(int, pthread_rwlock_clockwrlock, pthread_rwlock_t* l, clockid_t ck, const timespec* ts) { Quiet q_; return in_sim() ? rw_lock(l, true, false, abs_to_sim(ts, ck)) : __real_pthread_rwlock_clockwrlock(l, ck, ts); }
WRAP(int, pthread_rwlock_unlock, pthread_rwlock_t* l)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_rwlock_unlock(l);
  Rw& x = rws[l];
  if (x.w) x.w = nullptr; else if (x.readers) x.readers--;
  return 0;
}
WRAP(int, pthread_rwlock_destroy, pthread_rwlock_t* l)
{
  Quiet q_;
  if (!in_sim()) return __real_pthread_rwlock_destroy(l);
  rws.erase(l);
  return 0;
}
// semaphores, not used by the library now
WRAP(int, sem_init, sem_t* s, int sh, unsigned v) { Quiet q_; if (!in_sim()) return __real_sem_init(s, sh, v); sems[s] = v; return 0; }
WRAP(int, sem_destroy, sem_t* s) { Quiet q_; if (!in_sim()) return __real_sem_destroy(s); sems.erase(s); return 0; }
static unsigned& sem_count(sem_t* s) { auto i = sems.find(s); if (i == sems.end()) { int v = 0; sem_getvalue(s, &v); i = sems.insert({s, (unsigned)v}).first; } return i->second; }
static int sem_take(sem_t* s, Time dl) { yield("sem_wait"); if (!sem_count(s) && !block([s] { return sem_count(s) > 0; }, dl, "sem")) { errno = ETIMEDOUT; return -1; } --sem_count(s); return 0; }
WRAP(int, sem_wait, sem_t* s) { Quiet q_; return in_sim() ? sem_take(s, NEVER) : __real_sem_wait(s); }
WRAP(int, sem_timedwait, sem_t* s, const timespec* ts) { Quiet q_; return in_sim() ? sem_take(s, abs_to_sim(ts, CLOCK_REALTIME)) : __real_sem_timedwait(s, ts); }
WRAP(int, sem_trywait, sem_t* s) { Quiet q_; if (!in_sim()) return __real_sem_trywait(s); yield("sem_trywait"); if (!sem_count(s)) { errno = EAGAIN; return -1; } --sem_count(s); return 0; }
WRAP(int, sem_post, sem_t* s) { Quiet q_; if (!in_sim()) return __real_sem_post(s); yield("sem_post"); ++sem_count(s); yield("sem_posted"); return 0; }
WRAP(int, sem_clockwait, sem_t* s, clockid_t ck, const timespec* ts) { Quiet q_; return in_sim() ? sem_take(s, abs_to_sim(ts, ck)) : __real_sem_clockwait(s, ck, ts); }
WRAP(int, pthread_spin_lock, pthread_spinlock_t* s) { Quiet q_; if (!in_sim()) return __real_pthread_spin_lock(s); yield("spin_lock"); while (__real_pthread_spin_trylock(s)) sim::sleep(10 * US); return 0; }
WRAP(int, pthread_spin_trylock, pthread_spinlock_t* s) { Quiet q_; if (in_sim()) yield("spin_trylock"); return __real_pthread_spin_trylock(s); }
WRAP(int, pthread_spin_unlock, pthread_spinlock_t* s) { Quiet q_; int r = __real_pthread_spin_unlock(s); if (in_sim()) yield("spin_unlock"); return r; }
WRAP(int, sched_yield, void)
{
  Quiet q_;
  if (!in_sim()) return __real_sched_yield();
  tick(US); self()->streak = 1000; yield("sched_yield"); return 0;
}
WRAP(int, nanosleep, const timespec* r, timespec* rem)
{
  Quiet q_;
  if (!in_sim()) return __real_nanosleep(r, rem);
  sim::sleep((Time)r->tv_sec * SEC + r->tv_nsec); return 0;
}
WRAP(int, clock_nanosleep, clockid_t c, int fl, const timespec* r, timespec* rem)
{
  Quiet q_;
  if (!in_sim()) return __real_clock_nanosleep(c, fl, r, rem);
  if (fl & TIMER_ABSTIME) { Time t = abs_to_sim(r, c); if (t > now()) sim::sleep(t - now()); }
  else sim::sleep((Time)r->tv_sec * SEC + r->tv_nsec);
  return 0;
}
WRAP(int, usleep, useconds_t u) { Quiet q_; if (!in_sim()) return __real_usleep(u); sim::sleep((Time)u * US); return 0; }
WRAP(unsigned, sleep, unsigned s) { Quiet q_; if (!in_sim()) return __real_sleep(s); sim::sleep((Time)s * SEC); return 0; }
WRAP(time_t, time, time_t* t)
{
  Quiet q_;
  if (!active) return __real_time(t);
  time_t v = clk(CLOCK_REALTIME) / SEC; if (t) *t = v; return v;
}
WRAP(int, gettimeofday, timeval* tv, void* z)
{
  Quiet q_;
  if (!active) return __real_gettimeofday(tv, z);
  Time t = clk(CLOCK_REALTIME); tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / US; return 0;
}
WRAP(int, clock_gettime, clockid_t c, timespec* ts)
{
  Quiet q_;
  if (!active) return __real_clock_gettime(c, ts);
  *ts = to_ts(clk(c)); return 0;
}
// Function-local statics: a thread preempted inside an initialiser must not block others for real.
WRAP(int, __cxa_guard_acquire, uint64_t* g)
{
  Quiet q_;
  char* b = (char*)g;
  if (!in_sim()) return __real___cxa_guard_acquire(g);
  if (b[0]) return 0;
  if (b[1]) { block([b] { return !b[1]; }, NEVER, "static_init"); if (b[0]) return 0; }
  b[1] = 1;
  return 1;
}
WRAP(void, __cxa_guard_release, uint64_t* g)
{
  Quiet q_;
  if (!in_sim()) { __real___cxa_guard_release(g); return; }
  char* b = (char*)g; b[0] = 1; b[1] = 0;
}
WRAP(void, __cxa_guard_abort, uint64_t* g)
{
  Quiet q_;
  if (!in_sim()) { __real___cxa_guard_abort(g); return; }
  ((char*)g)[1] = 0;
}

// ---- functions of libc with or around static buffers: a switch is possible right after them ------
#define AFTER(ret, name, params, args) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { ret r = __real_##name args; sim::point(); return r; }
struct tm;
AFTER(size_t, strftime, (char* s, size_t n, const char* f, const struct tm* t), (s, n, f, t))
AFTER(struct tm*, gmtime, (const time_t* t), (t))
AFTER(struct tm*, localtime, (const time_t* t), (t))
AFTER(char*, asctime, (const struct tm* t), (t))
AFTER(char*, ctime, (const time_t* t), (t))
AFTER(char*, strerror, (int e), (e))
AFTER(const char*, hstrerror, (int e), (e))
AFTER(char*, inet_ntoa, (struct in_addr a), (a))
AFTER(char*, strtok, (char* s, const char* d), (s, d))
