// Deterministic simulator: scheduler, virtual clock, choice streams, event log.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef int64_t Time;                 // simulated nanoseconds
const Time US = 1000, MS = 1000 * US, SEC = 1000 * MS;
const Time NEVER = INT64_MAX;

// ---- choice streams -------------------------------------------------------
// Every random decision of a run is one draw from one of these streams.  0 is
// always the simplest outcome, so a minimised run has mostly zeros.
enum Stream {
  S_CFG = 0,      // per-run configuration (swarm)
  S_SCHED = 1,    // which thread runs, preemption at synchronisation points
  S_EDGE = 2,     // preemption inside library code
  S_NET = 3,      // segmentation, delay, short reads and writes
  S_FAULT = 4,    // injected faults
  S_WORK = 5,     // workload of the driver; S_WORK+k for actor k
  S_MAX = 64
};

uint32_t choose(int stream, uint32_t n);             // uniform in [0, n)
bool chance(int stream, uint32_t permille);          // true with probability permille/1000
int range(int stream, int lo, int hi);               // uniform in [lo, hi], 0 draws lo
template <class T> const T& pick(int stream, const std::vector<T>& v) { return v[choose(stream, (uint32_t)v.size())]; }
std::string rnd_bytes(int stream, size_t n, const std::string& alphabet);

// ---- run result -----------------------------------------------------------
enum Fault {
  F_SEGMENT, F_DELAY, F_STALL, F_SHORT_SEND, F_SHORT_RECV, F_RST, F_REFUSED, F_BLACKHOLE,
  F_ACCEPT_ERR, F_SOCKET_ERR, F_EINTR, F_DNS, F_SPURIOUS, F_THREAD_STALL, F_PREEMPT_SYNC, F_PREEMPT_EDGE,
  F_CLOCK_JUMP, F_PEER_CLOSE, F_PEER_RESET, F_PEER_GARBAGE, F_PEER_STALL, F_HALF_CLOSE, F_SRV_RESTART, F_SEND_ERR,
  F_PIPE_RACE, F_THREAD_ERR, F_COUNT
};
extern const char* const fault_names[F_COUNT];
void fault(Fault f);                                  // count an injected fault that fired

void probe(const char* name);                         // count "this condition was reached"

// Report a violation of the property under check and end the run.
[[noreturn]] void violation(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// A harness problem (not a statement about the code under test); ends the run.
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event log (hashed)
void op(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // workload step, kept for evidence samples

#define CHECK(cond, cls, ...) do { if (!(cond)) sim::violation(cls, __VA_ARGS__); } while (0)

// ---- threads and time -----------------------------------------------------
struct Thread;
extern bool active;                   // simulation running
Time now();
Thread* self();
int spawn(const std::string& name, std::function<void()> fn, uint32_t host = 0, bool foreign = false);
bool finished(int tid);
void yield(const char* what);         // synchronisation point
void sleep(Time t);
bool wait_until(std::function<bool()> pred, Time timeout, const char* what = "wait");   // false on timeout
void after(Time delay, std::function<void()> fn);    // run fn in scheduler context
std::string thread_dump();
void set_host(uint32_t ip);
uint64_t threads_alive_lib();         // library-created threads that have not ended

// ---- per-run knobs, set by worlds before spawning -------------------------
struct Knobs {
  // scheduling
  int policy = 0;                 // 0 run-to-block, 1 random, 2 priority with change points
  int sync_permille = 0;          // policy 1: preempt probability per synchronisation point
  int edge_gap = 0;               // mean instrumented edges between preemptions; 0 = off
  int pct_gap = 0;                // policy 2: mean synchronisation points between priority changes
  int spurious_permille = 0;
  int thread_stall_permille = 0;
  Time thread_stall_max = 10 * MS;
  // network
  int seg_kind = 0;               // 0 whole, 1 single bytes, 2 small, 3 uniform, 4 mss, 5 mixed
  int mss = 1460;
  Time lat_max = 0;               // per-segment delay upper bound
  size_t sndbuf = 262144, rcvbuf = 262144;
  int short_send_permille = 0, short_recv_permille = 0;
  int stall_permille = 0; Time stall_max = 0;
  int rst_permille = 0;           // per delivered segment: reset the connection
  int eintr_permille = 0;
  int accept_err_permille = 0;
  int socket_err_permille = 0;
  int thread_err_permille = 0;        // the library cannot start a thread
  int dns_fail_permille = 0;
  int refused_now_permille = 500; // refused connects reported by connect() itself
  bool sigpipe_fatal = true;
  bool fd_fresh = false;          // library descriptors are never reused, so any use after close shows
  Time fault_until = NEVER;       // injected faults stop at this time
  uint64_t max_steps = 2000000;
  uint64_t max_edges = 1200000000;
};
extern Knobs knobs;
void swarm_sched(bool fine = true);   // draw a scheduling policy
void swarm_net(bool latency = true);  // draw segmentation/latency/buffer sizes (no faults)
bool faults_on();

// ---- memory ---------------------------------------------------------------------
// Blocks allocated by the code under test (outside the simulator and scripted peers) while tracking is on.
void track_memory(bool on);
void live_memory(size_t& blocks, size_t& bytes);
extern thread_local int quiet_;
struct Quiet { Quiet() { ++quiet_; } ~Quiet() { --quiet_; } };   // allocations in its scope belong to the simulator

// ---- network inspection ---------------------------------------------------
void add_host(const std::string& name, uint32_t ip, int more = 0);   // more: further addresses of that name
void remove_host(const std::string& name);
void dns_override(std::function<int(const std::string&)> f); // returns 0 ok, else h_errno
void point();                         // a place where library code can be preempted
size_t open_fds_lib();                // descriptors held by non-foreign threads
size_t open_tcp_lib();                // of these, TCP sockets (no pipes, event descriptors and so on)
size_t open_tcp_host(uint32_t ip);
size_t open_fds_host(uint32_t ip);   // of these, the ones of one host
bool fd_readable(int fd);
int most_ignored();                  // how often poll reported one library descriptor readable before it was read
std::string fd_dump();
uint64_t stale_ops(); std::string stale_detail();
size_t conns_to(uint32_t ip, int port);      // connections ever established to ip:port
size_t tx_pending(int fd);            // bytes accepted by send but not yet delivered
size_t delivered_to_peer(int fd);
size_t rx_taken_by_peer(int fd);     // bytes the peer has read so far
void net_reset(int fd);               // inject a reset on the connection of fd
void net_stall(int fd, Time t);       // stall both directions of the connection
void set_blackhole(uint32_t ip, int port, bool on);
void set_refuse(uint32_t ip, int port, bool on);
void set_syn_delay(uint32_t ip, int port, Time d);
bool has_listener(uint32_t ip, int port);
void fd_set_buf(int fd, size_t snd, size_t rcv);
void freeze_host(uint32_t ip);        // crash: all sockets of a host reset
Time last_rx(int fd);                 // last time data was delivered to or taken from this socket
struct ConnInfo { uint32_t cip; int cport; uint32_t sip; int sport; Time opened; uint64_t to_server, to_client; };
const std::vector<ConnInfo>& conn_log();
inline uint32_t ip4(int a, int b, int c, int d) { return (uint32_t)a << 24 | (uint32_t)b << 16 | (uint32_t)c << 8 | (uint32_t)d; }
std::string ipstr(uint32_t ip);

void clock_jump(Time d);
Time wall_offset();

// ---- internals shared between sim.cc, net.cc, wrap.cc ----------------------
struct Thread {
  int id; std::string name; uint32_t host = 0; bool foreign = false, harness = false;
  int futex = 0; int tid = 0;
  bool done = false, blocked = false, exiting = false, reaped = false;
  std::function<bool()> pred; Time deadline = NEVER; bool timed_out = false; const char* what = "";
  unsigned long pth = 0; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false, joined = false;
  std::function<void()> body;
  int prio = 0; uint64_t streak = 0;
  std::string* log_name = nullptr;
  bool cond_signaled = false; int core = 0; Time last_net_ok = 0;
};
std::vector<Thread*>& threads();
bool block(std::function<bool()> pred, Time deadline, const char* what);   // true if pred held
int create_thread(std::string name, void* (*fn)(void*), void* arg, std::function<void()> body, uint32_t host, bool foreign, unsigned long* out);
bool in_sim();            // active and called from a simulated thread
void note_fd(const char* what, int fd);

struct Outcome {           // shared memory, filled by the child
  int status;              // 0 not finished, 1 ok, 2 violation, 3 harness error
  char cls[128]; char msg[4096];
  uint64_t hash, sched_hash, steps, switches, edges; int64_t sim_ns;
  uint32_t faults[F_COUNT];
  uint32_t nprobe; struct { char name[40]; uint32_t n; } probes[96];
  uint32_t nchoice; uint32_t opslen; char ops[16384];
  uint64_t net_bytes, calls, nontrivial;
};
const uint32_t MAX_CHOICES = 6000000;
struct Choice { uint32_t stream, value; };
extern Outcome* out;
extern Choice* choices;

struct Replay { bool on = false; std::vector<std::vector<uint32_t>> v; };
void run_world(std::function<void()> world, uint64_t seed, const Replay* replay, bool verbose);   // never returns
extern bool verbose;
} // namespace sim
