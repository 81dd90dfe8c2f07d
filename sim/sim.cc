#include "sim.h"
#include <sanitizer/allocator_interface.h>
#include <sys/mman.h>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cxxabi.h>

extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

namespace sim {

bool active = false, verbose = false;
Knobs knobs;
Outcome* out; Choice* choices;
static Time now_ = 0, wall_off = 0;
static std::vector<Thread*> thr;
static __thread Thread* self_ __attribute__((tls_model("initial-exec"))) = nullptr;
static Thread* cur = nullptr;
static Thread* to_reap = nullptr;
static uint64_t seed_; static const Replay* replay_;
static std::vector<size_t> rpos;
static uint64_t prng[S_MAX];
static int min_prio = 0;
static uint64_t last_edge_total = 0;
int64_t edge_countdown = INT64_MAX; int64_t edge_loaded = 0; uint64_t edge_total = 0;

const char* const fault_names[F_COUNT] = {
  "segment_split", "delay", "stall", "short_send", "short_recv", "conn_reset", "connect_refused", "connect_blackhole",
  "accept_error", "socket_error", "poll_eintr", "dns_failure", "spurious_wakeup", "thread_stall", "preempt_sync", "preempt_edge",
  "clock_jump", "peer_close", "peer_reset", "peer_garbage", "peer_stall", "half_close", "server_restart", "send_error", "pipe_race", "thread_error" };

std::vector<Thread*>& threads() { return thr; }
Thread* self() { return self_; }
Time now() { return now_; }
Time wall_offset() { return wall_off; }
void clock_jump(Time d) { wall_off += d; fault(F_CLOCK_JUMP); }
bool in_sim() { return active && self_ && !self_->exiting; }
bool faults_on() { return now_ < knobs.fault_until; }
void fault(Fault f) { if (out) out->faults[f]++; }

void probe(const char* name)
{ Quiet q_;
  if (!out) return;
  for (uint32_t i = 0; i < out->nprobe; ++i)
    if (!strcmp(out->probes[i].name, name)) { out->probes[i].n++; return; }
  if (out->nprobe < 96) { snprintf(out->probes[out->nprobe].name, 40, "%s", name); out->probes[out->nprobe++].n = 1; }
}

// ---- choices --------------------------------------------------------------
static uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t next_rnd(int s) { prng[s] += 0x9e3779b97f4a7c15ull; return mix(prng[s]); }

static uint32_t record(int s, uint32_t v)
{
  if (out->nchoice < MAX_CHOICES) { choices[out->nchoice].stream = s; choices[out->nchoice].value = v; out->nchoice++; }
  return v;
}
// Either the next recorded value of the stream or f(random).
template <class F> static uint32_t draw(int s, F f)
{
  if (s < 0 || s >= S_MAX) harness_error("bad stream %d", s);
  if (replay_) {
    uint32_t v = 0;
    if (s < (int)replay_->v.size() && rpos[s] < replay_->v[s].size()) v = replay_->v[s][rpos[s]++];
    return record(s, v);
  }
  return record(s, f(next_rnd(s)));
}
uint32_t choose(int s, uint32_t n)
{ Quiet q_;
  if (n <= 1) return 0;
  uint32_t v = draw(s, [&](uint64_t r) { return (uint32_t)((r >> 33) % n); });
  return v < n ? v : v % n;
}
bool chance(int s, uint32_t pm)
{
  if (!pm) return false;
  if (pm >= 1000) return true;
  return draw(s, [&](uint64_t r) { return (uint32_t)((r >> 33) % 1000 < pm); }) != 0;
}
int range(int s, int lo, int hi) { return hi <= lo ? lo : lo + (int)choose(s, (uint32_t)(hi - lo + 1)); }
std::string rnd_bytes(int s, size_t n, const std::string& a)
{
  // one draw seeds a whole string, so long strings stay cheap to record
  uint64_t x = draw(s, [](uint64_t r) { return (uint32_t)(r >> 32); });
  std::string r; r.reserve(n);
  for (size_t i = 0; i < n; ++i) { r += x ? a[mix(x + i * 0x1234567ull) % a.size()] : a[0]; }
  return r;
}
// Number of steps until something happens: 0 = never again.
static uint64_t gap(int s, uint32_t mean)
{
  uint32_t v = draw(s, [&](uint64_t r) { return 1 + (uint32_t)((r >> 33) % (2 * mean)); });
  return v ? v : UINT64_MAX;
}

// ---- log ------------------------------------------------------------------
static uint64_t fnv(uint64_t h, const void* p, size_t n)
{
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
void log(const char* fmt, ...)
{
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  out->hash = fnv(out->hash, b, strlen(b));
  int64_t t = now_ ^ ((int64_t)(self_ ? self_->id : -1) << 48);
  out->hash = fnv(out->hash, &t, sizeof t);
  if (verbose) fprintf(stderr, "%12.6f [%-12s] %s\n", now_ / 1e9, self_ ? self_->name.c_str() : "-", b);
}
void op(const char* fmt, ...)
{ Quiet q_;
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  log("OP %s", b);
  size_t l = strlen(b);
  if (out->opslen + l + 2 < sizeof out->ops) {
    memcpy(out->ops + out->opslen, b, l); out->opslen += l; out->ops[out->opslen++] = '\n'; out->ops[out->opslen] = 0;
  }
}
static void finish(int status)
{
  out->status = status;
  out->sim_ns = now_; out->edges = edge_total + (edge_loaded - edge_countdown);
  active = false;
  fflush(stderr);
  _exit(0);
}
void violation(const std::string& cls, const char* fmt, ...)
{
  active = false;
  snprintf(out->cls, sizeof out->cls, "%s", cls.c_str());
  va_list ap; va_start(ap, fmt); vsnprintf(out->msg, sizeof out->msg, fmt, ap); va_end(ap);
  if (verbose) fprintf(stderr, "%12.6f [%-12s] VIOLATION %s: %s\n%s", now_ / 1e9, self_ ? self_->name.c_str() : "-", out->cls, out->msg, thread_dump().c_str());
  log("VIOLATION %s", out->cls);
  finish(2);
  abort();
}
void harness_error(const char* fmt, ...)
{
  active = false;
  snprintf(out->cls, sizeof out->cls, "harness");
  va_list ap; va_start(ap, fmt); vsnprintf(out->msg, sizeof out->msg, fmt, ap); va_end(ap);
  if (verbose) fprintf(stderr, "HARNESS ERROR %s\n", out->msg);
  finish(3);
  abort();
}

// ---- baton ----------------------------------------------------------------
static void futex_wait(int* f)
{
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void futex_post(int* f)
{
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void after_switch_in()
{
  if (to_reap) {
    Thread* t = to_reap; to_reap = nullptr;
    while (syscall(SYS_tgkill, getpid(), t->tid, 0) == 0) syscall(SYS_sched_yield);
  }
}

// ---- events ---------------------------------------------------------------
struct Ev { Time t; uint64_t seq; std::function<void()> fn; };
struct EvLess { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::vector<Ev> evq; static uint64_t evseq = 0;
void after(Time d, std::function<void()> fn)
{
  evq.push_back(Ev{now_ + (d < 0 ? 0 : d), evseq++, std::move(fn)});
  std::push_heap(evq.begin(), evq.end(), EvLess());
}
static void run_due()
{
  while (!evq.empty() && evq.front().t <= now_) {
    std::pop_heap(evq.begin(), evq.end(), EvLess());
    Ev e = std::move(evq.back()); evq.pop_back();
    e.fn();
  }
}

static bool is_runnable(Thread* t)
{
  if (t->done) return false;
  if (!t->blocked) return true;
  if (t->pred && t->pred()) return true;
  return t->deadline <= now_;
}
static uint64_t sync_cnt = 0, pct_cnt = 0, stall_cnt = 0;
static void step_check()
{
  if (++out->steps > knobs.max_steps) violation("livelock", "step limit reached at t=%.6f\n%s", now_ / 1e9, thread_dump().c_str());
}
static void switch_to(Thread* n)
{
  Thread* me = self_;
  if (n == me) { if (n->blocked) { n->blocked = false; } me->streak = 0; return; }
  n->streak = 0;
  out->switches++;
  uint64_t x = (uint64_t)n->id << 32 ^ (uint64_t)(n->what ? fnv(1469598103934665603ull, n->what, strlen(n->what)) : 0);
  out->sched_hash = fnv(out->sched_hash, &x, sizeof x);
  out->hash = fnv(out->hash, &x, sizeof x);
  out->hash = fnv(out->hash, &now_, sizeof now_);
  if (verbose) fprintf(stderr, "%12.6f [%-12s] -> %s (%s)\n", now_ / 1e9, me->name.c_str(), n->name.c_str(), n->what);
  n->blocked = false;
  cur = n;
  bool exiting = me->exiting;
  futex_post(&n->futex);
  if (exiting) return;
  futex_wait(&me->futex);
  after_switch_in();
}
// Choose the next thread.  `must`: the current thread cannot continue.
struct CoreGuard { Thread* t; CoreGuard(): t(self_) { t->core++; } ~CoreGuard() { t->core--; } };
static void reschedule(bool must, bool want, bool edge = false)
{
  CoreGuard cg;
  if (!edge) step_check();                 // preemptions inside code have their own limit
  std::vector<Thread*> r;
  for (;;) {
    run_due();
    r.clear();
    for (Thread* t : thr) if (t != self_ ? is_runnable(t) : (!must || is_runnable(t))) r.push_back(t);
    if (!r.empty()) break;
    Time nt = evq.empty() ? NEVER : evq.front().t;
    for (Thread* t : thr) if (!t->done && t->blocked && t->deadline < nt) nt = t->deadline;
    if (nt == NEVER) violation("deadlock", "no thread can run\n%s", thread_dump().c_str());
    if (nt > now_) now_ = nt;
  }
  Thread* n = nullptr;
  if (knobs.policy == 2) {
    for (Thread* t : r) if (!n || t->prio > n->prio) n = t;
    if (!must && want) { // forced fairness: demote the current thread
      self_->prio = --min_prio; n = nullptr;
      for (Thread* t : r) if (!n || t->prio > n->prio) n = t;
    }
  } else {
    if (!must) {
      if (!want) return;
      r.erase(std::remove(r.begin(), r.end(), self_), r.end());
      if (r.empty()) { self_->streak = 0; return; }
    }
    n = r[choose(S_SCHED, (uint32_t)r.size())];
  }
  switch_to(n);
}
void yield(const char* what)
{
  if (!in_sim() || self_->core) return;
  Thread* me = self_;
  me->what = what;
  bool want = false;
  if (++me->streak > 400) { want = true; me->streak = 0; }
  if (knobs.policy == 1 && knobs.sync_permille) {
    if (sync_cnt == 0) sync_cnt = gap(S_SCHED, 1 + 1000 / knobs.sync_permille);
    if (--sync_cnt == 0) { want = true; fault(F_PREEMPT_SYNC); }
  } else if (knobs.policy == 2) {
    if (knobs.pct_gap) {
      if (pct_cnt == 0) pct_cnt = gap(S_SCHED, knobs.pct_gap);
      if (--pct_cnt == 0) { want = true; fault(F_PREEMPT_SYNC); }
    }
  }
  if (knobs.thread_stall_permille && faults_on() && !me->harness) {
    if (stall_cnt == 0) stall_cnt = gap(S_FAULT, 1 + 1000 / knobs.thread_stall_permille);
    if (--stall_cnt == 0) {
      fault(F_THREAD_STALL);
      block(nullptr, now_ + 1 + choose(S_FAULT, (uint32_t)(knobs.thread_stall_max / US)) * US, "stalled");
      return;
    }
  }
  reschedule(false, want);
}
bool block(std::function<bool()> pred, Time deadline, const char* what)
{
  Thread* me = self_;
  if (!in_sim()) return pred ? pred() : true;
  if (me->core) harness_error("blocking inside a harness section: %s", what);
  if (pred && pred()) return true;
  me->pred = std::move(pred); me->deadline = deadline; me->what = what;
  for (;;) {
    me->blocked = true;
    reschedule(true, true);
    if (!me->pred) { me->deadline = NEVER; return false; }
    if (me->pred()) { me->pred = nullptr; me->deadline = NEVER; return true; }
    if (me->deadline <= now_) { me->pred = nullptr; me->deadline = NEVER; return false; }
  }
}
void sleep(Time t) { block(nullptr, now_ + t, "sleep"); }
bool wait_until(std::function<bool()> pred, Time timeout, const char* what)
{
  return block(std::move(pred), timeout == NEVER ? NEVER : now_ + timeout, what);
}
void tick(Time t) { now_ += t; }

// ---- edge callbacks ---------------------------------------------------------
static void reload_edges()
{
  edge_total += edge_loaded - edge_countdown;
  uint64_t g = 200000;
  if (knobs.edge_gap) { g = gap(S_EDGE, knobs.edge_gap); if (g > 200000) g = 200000; }
  edge_loaded = edge_countdown = (int64_t)g;
}
void edge_slow()
{
  Quiet q_;
  if (!in_sim() || self_->core) { edge_total += edge_loaded - edge_countdown; edge_loaded = edge_countdown = 1000; return; }
  int e = errno;
  bool forced = !knobs.edge_gap || edge_loaded >= 200000;
  reload_edges();
  if (edge_total > knobs.max_edges) violation("spin", "edge limit reached at t=%.6f\n%s", now_ / 1e9, thread_dump().c_str());
  if (!forced) { fault(F_PREEMPT_EDGE); if (out->faults[F_PREEMPT_EDGE] >= 200000) knobs.edge_gap = 0; }   // enough of them in one run
  self_->what = forced ? "fairness" : "edge";
  reschedule(false, true, true);
  errno = e;
}

void point() { if ((edge_countdown -= 5) <= 0) edge_slow(); }

// ---- memory -----------------------------------------------------------------
thread_local int quiet_ = 0;
namespace {
struct Block { const volatile void* p; size_t n; };
const size_t NBLOCKS = 1 << 18;
Block* blocks = nullptr; size_t nlive = 0, blive = 0; bool tracking = false;
size_t slot(const volatile void* p) { uint64_t x = (uint64_t)p; x ^= x >> 17; x *= 0x9e3779b97f4a7c15ull; return (x >> 32) & (NBLOCKS - 1); }
void on_malloc(const volatile void* p, size_t n)
{
  if (!tracking || !p || quiet_ || !in_sim() || self_->core || self_->foreign || nlive > NBLOCKS / 2) return;
  size_t i = slot(p); while (blocks[i].p) i = (i + 1) & (NBLOCKS - 1);
  blocks[i] = Block{p, n}; ++nlive; blive += n;
}
void on_free(const volatile void* p)
{
  if (!blocks || !p || !nlive) return;
  size_t i = slot(p); while (blocks[i].p && blocks[i].p != p) i = (i + 1) & (NBLOCKS - 1);
  if (!blocks[i].p) return;
  --nlive; blive -= blocks[i].n;
  for (size_t j = (i + 1) & (NBLOCKS - 1); blocks[j].p; j = (j + 1) & (NBLOCKS - 1)) {    // close the gap
    size_t h = slot(blocks[j].p);
    if (((j - h) & (NBLOCKS - 1)) >= ((j - i) & (NBLOCKS - 1))) { blocks[i] = blocks[j]; i = j; }
  }
  blocks[i].p = nullptr;
}
}
void track_memory(bool on)
{
  if (on && !blocks) {
    blocks = (Block*)mmap(nullptr, NBLOCKS * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  }
  tracking = on;
}
void live_memory(size_t& n, size_t& b) { n = nlive; b = blive; }

// ---- threads --------------------------------------------------------------
static void* trampoline(void* p)
{
  Thread* t = (Thread*)p;
  self_ = t; t->tid = (int)syscall(SYS_gettid);
  futex_wait(&t->futex);
  after_switch_in();
  log("thread start %s", t->name.c_str());
  if (t->fn) t->ret = t->fn(t->arg); else t->body();
  log("thread end %s", t->name.c_str());
  t->done = true;
  to_reap = t;
  t->what = "exit";
  t->exiting = true;
  reschedule(true, true);     // hands the baton over and returns at once
  return t->ret;
}
int create_thread(std::string name, void* (*fn)(void*), void* arg, std::function<void()> body, uint32_t host, bool foreign, unsigned long* outp)
{
  Thread* t = new Thread;
  t->id = (int)thr.size(); t->fn = fn; t->arg = arg; t->body = std::move(body);
  t->name = name.empty() ? "lib" + std::to_string(t->id) : name;
  t->host = host; t->foreign = foreign; t->what = "new";
  if (knobs.policy == 2) t->prio = (int)choose(S_SCHED, 1000);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
  pthread_t p;
  int r = __real_pthread_create(&p, &a, trampoline, t);
  pthread_attr_destroy(&a);
  if (r) harness_error("pthread_create failed: %d", r);
  t->pth = p; if (outp) *outp = p;
  thr.push_back(t);
  return t->id;
}
int spawn(const std::string& name, std::function<void()> fn, uint32_t host, bool foreign)
{
  int id = create_thread(name, nullptr, nullptr, std::move(fn), host ? host : self_->host, foreign, nullptr);
  thr[id]->harness = foreign;
  yield("spawn");
  return id;
}
bool finished(int tid) { return thr[tid]->done; }
void set_host(uint32_t ip) { self_->host = ip; }
uint64_t threads_alive_lib() { uint64_t n = 0; for (Thread* t : thr) if (t->fn && !t->done) ++n; return n; }
std::string thread_dump()
{
  std::string s;
  for (Thread* t : thr) {
    s += "  thread " + t->name + ": " + (t->done ? "done" : t->blocked ? std::string("blocked in ") + t->what : std::string("at ") + t->what);
    if (!t->done && t->blocked && t->deadline != NEVER) s += " until " + std::to_string(t->deadline / 1e9);
    s += "\n";
  }
  return s;
}

// ---- swarm ----------------------------------------------------------------
void swarm_sched(bool fine)
{
  int p = (int)choose(S_CFG, 10);
  if (p < 3) knobs.policy = 0;
  else if (p < 7) { knobs.policy = 1; static const int pm[] = {500, 250, 100, 30}; knobs.sync_permille = pm[choose(S_CFG, 4)]; }
  else { knobs.policy = 2; static const int g[] = {20, 60, 200, 1000}; knobs.pct_gap = g[choose(S_CFG, 4)]; }
  static const int eg[] = {0, 0, 0, 3000, 800, 200, 60, 20};
  int k = (int)choose(S_CFG, 8);
  knobs.edge_gap = fine ? eg[k] : 0;
  static const int sp[] = {0, 0, 0, 50, 300};
  knobs.spurious_permille = sp[choose(S_CFG, 5)];
}
void swarm_net(bool latency)
{
  knobs.seg_kind = (int)choose(S_CFG, 6);
  static const int m[] = {1460, 65536, 536, 16384, 100, 4096};
  knobs.mss = m[choose(S_CFG, 6)];
  static const Time l[] = {0, 0, 50 * US, 500 * US, 5 * MS, 40 * MS};
  int k = (int)choose(S_CFG, 6);
  knobs.lat_max = latency ? l[k] : 0;
  static const size_t b[] = {262144, 65536, 1u << 20, 16384, 4096, 2304};
  knobs.sndbuf = b[choose(S_CFG, 6)]; knobs.rcvbuf = b[choose(S_CFG, 6)];
  static const int s[] = {0, 0, 100, 500, 950};
  knobs.short_send_permille = s[choose(S_CFG, 5)];
  knobs.short_recv_permille = s[choose(S_CFG, 5)];
}

// ---- run ------------------------------------------------------------------
static void on_terminate()
{
  active = false;
  std::string d = "no exception";
  if (std::type_info* ti = abi::__cxa_current_exception_type()) {
    int st; char* n = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st); d = n ? n : ti->name();
    try { throw; } catch (const std::exception& e) { d += std::string(": ") + e.what(); } catch (...) {}
  }
  violation("terminate", "std::terminate in thread %s: %s", self_ ? self_->name.c_str() : "?", d.c_str());
}
void run_world(std::function<void()> world, uint64_t seed, const Replay* rp, bool v)
{
  seed_ = seed; replay_ = rp; verbose = v; rpos.assign(S_MAX, 0);
  for (int i = 0; i < S_MAX; ++i) prng[i] = mix(seed * 0x100000001b3ull + i * 0x9e3779b97f4a7c15ull);
  out->hash = out->sched_hash = 1469598103934665603ull;
  std::set_terminate(on_terminate);
  Thread* t = new Thread; t->id = 0; t->name = "driver"; t->harness = true; t->what = "start"; t->tid = (int)syscall(SYS_gettid); t->pth = pthread_self();
  t->prio = 500; t->host = ip4(10, 0, 0, 1);
  thr.push_back(t); self_ = t; cur = t;
  edge_loaded = edge_countdown = 1000;
  active = true;
  world();
  active = false;
  finish(1);
}

} // namespace sim

// ---- instrumentation callbacks ----------------------------------------------
extern "C" {
uint8_t* sim_edge_map; uint32_t sim_edge_n;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
  if (a == b || *a) return;
  for (; a < b; ++a) *a = ++sim_edge_n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
  if (sim_edge_map) sim_edge_map[*g] = 1;
  if (--sim::edge_countdown > 0) return;
  sim::edge_slow();
}
// Reads and writes of memory that is not on the thread's stack are points of preemption as well.
static inline void access(const void* p)
{
  uintptr_t f = (uintptr_t)__builtin_frame_address(0), a = (uintptr_t)p;
  if (a - f < (1u << 20) || --sim::edge_countdown > 0) return;
  sim::edge_slow();
}
#define ACCESS(n) void __sanitizer_cov_load##n(void* p) { access(p); } void __sanitizer_cov_store##n(void* p) { access(p); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
}
