// Runner: forks one child per simulated run, aggregates, replays, minimises.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include <unordered_set>

using namespace sim;
extern "C" uint8_t* sim_edge_map; extern "C" uint32_t sim_edge_n;
extern "C" const char* __asan_default_options()
{
  return "detect_leaks=1:leak_check_at_exit=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0:quarantine_size_mb=16:"
         "detect_odr_violation=0:handle_abort=0:symbolize=0:malloc_context_size=6:print_legend=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=1";
}
std::vector<World>& worlds() { static std::vector<World> w; return w; }

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint64_t mix(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static int errfd = -1;

struct Res { int status; std::string cls, msg; uint64_t hash; };
static std::string read_err()
{
  std::string s; char b[4096]; lseek(errfd, 0, SEEK_SET); ssize_t n;
  while ((n = read(errfd, b, sizeof b)) > 0 && s.size() < 400000) s.append(b, n);
  return s;
}
static Res run_one(const World& w, uint64_t seed, const Replay* rp, bool verbose, double limit)
{
  memset(out, 0, sizeof *out);
  if (ftruncate(errfd, 0)) {}
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) {
    if (!verbose) { lseek(errfd, 0, SEEK_SET); dup2(errfd, 2); }
    run_world(w.fn, seed, rp, verbose);
    _exit(0);
  }
  int st; double t0 = wall(); bool killed = false;
  int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
  if (pfd >= 0) {
    pollfd p = {pfd, POLLIN, 0};
    int r; do r = poll(&p, 1, (int)(limit * 1000)); while (r < 0 && errno == EINTR && wall() - t0 < limit);
    if (r == 0) { kill(pid, SIGKILL); killed = true; }
    close(pfd);
  }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Res r; r.status = out->status; r.cls = out->cls; r.msg = out->msg; r.hash = out->hash;
  if (killed) { r.status = 3; r.cls = "wall-timeout"; r.msg = "run exceeded its wall-clock limit"; return r; }
  if (out->status == 0) {
    std::string e = verbose ? "" : read_err();
    r.status = 2;
    size_t p = e.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
      std::string k = e.substr(p + 25); k = k.substr(0, k.find_first_of(" \n:"));
      r.cls = "memory:" + k; r.msg = e.substr(p, 1500);
    } else if (WIFSIGNALED(st)) { r.cls = "crash:signal-" + std::to_string(WTERMSIG(st)); r.msg = e.substr(e.size() > 1000 ? e.size() - 1000 : 0); }
    else if (WEXITSTATUS(st) == 77) { r.cls = "memory:report"; r.msg = e.substr(0, 1500); }
    else { r.cls = "exit:" + std::to_string(WEXITSTATUS(st)); r.msg = e.substr(0, 1500); }
  }
  return r;
}

static std::string esc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static Replay collect()
{
  Replay r; r.on = true; r.v.resize(S_MAX);
  for (uint32_t i = 0; i < out->nchoice; ++i) r.v[choices[i].stream].push_back(choices[i].value);
  for (auto& s : r.v) while (!s.empty() && !s.back()) s.pop_back();
  return r;
}
static void write_replay(const std::string& path, const World& w, uint64_t seed, const Res& res, const Replay& r, const std::string& trace)
{
  std::ofstream f(path);
  f << "libiqxmlrpc-sim-replay 1\nproperty " << w.prop << "\nworld " << w.name << "\nseed " << seed << "\nclass " << res.cls << "\nhash " << std::hex << res.hash << std::dec << "\n";
  for (size_t i = 0; i < r.v.size(); ++i) {
    if (r.v[i].empty()) continue;
    f << "stream " << i;
    for (size_t k = 0; k < r.v[i].size();) {       // run-length for zeros
      size_t z = k; while (z < r.v[i].size() && !r.v[i][z]) ++z;
      if (z - k > 3) { f << " z" << z - k; k = z; } else f << " " << r.v[i][k++];
    }
    f << "\n";
  }
  f << "end\n" << trace;
}
static const World* find_world(const std::string& p, const std::string& n)
{
  for (auto& w : worlds()) if (p == w.prop && n == w.name) return &w;
  return nullptr;
}
static const World* load_replay(const std::string& path, Replay& r, uint64_t& seed, std::string& cls, uint64_t& hash)
{
  std::ifstream f(path); std::string line, prop, name; r.on = true; r.v.assign(S_MAX, std::vector<uint32_t>());
  while (std::getline(f, line) && line != "end") {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "property") is >> prop;
    else if (k == "world") is >> name;
    else if (k == "seed") is >> seed;
    else if (k == "class") { is >> std::ws; std::getline(is, cls); }
    else if (k == "hash") is >> std::hex >> hash;
    else if (k == "stream") {
      size_t i; is >> i; std::string t;
      while (is >> t) { if (t[0] == 'z') r.v[i].insert(r.v[i].end(), strtoul(t.c_str() + 1, 0, 10), 0); else r.v[i].push_back((uint32_t)strtoul(t.c_str(), 0, 10)); }
    }
  }
  return find_world(prop, name);
}

static void pin(int idx)
{
  cpu_set_t a; CPU_ZERO(&a);
  if (sched_getaffinity(0, sizeof a, &a)) return;
  std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &a)) c.push_back(i);
  if (c.empty()) return;
  CPU_ZERO(&a); CPU_SET(c[idx % c.size()], &a);
  sched_setaffinity(0, sizeof a, &a);
}
static const World* world_for(const std::string& prop, uint64_t seed)
{
  std::vector<const World*> v; int tot = 0;
  for (auto& w : worlds()) if (prop == w.prop) { v.push_back(&w); tot += w.weight; }
  if (!tot) return nullptr;
  int k = (int)(mix(seed ^ 0x5555) % tot);
  for (auto w : v) { if ((k -= w->weight) < 0) return w; }
  return v[0];
}
static uint64_t run_seed(uint64_t base, const std::string& prop, uint64_t i)
{
  uint64_t h = mix(base);
  for (char c : prop) h = mix(h ^ (unsigned char)c);
  return mix(h ^ i) & 0xffffffffffffffull;
}

// ---- minimiser ----------------------------------------------------------------
struct Minimiser {
  const World* w; uint64_t seed; std::string cls; double until; int tries = 0; Replay best; Res bestres;
  double lim;
  bool attempt(const Replay& c)
  {
    if (wall() > until) return false;
    ++tries;
    Res r = run_one(*w, seed, &c, false, lim);
    if (r.status == 2 && r.cls == cls) { best = collect(); bestres = r; return true; }
    return false;
  }
  static size_t size(const Replay& r) { size_t n = 0; for (auto& s : r.v) n += s.size(); return n; }
  static size_t nonzero(const Replay& r) { size_t n = 0; for (auto& s : r.v) for (auto x : s) n += x != 0; return n; }
  void go()
  {
    // whole streams first
    for (int pass = 0; pass < 3 && wall() < until; ++pass) {
      size_t before = nonzero(best), bsz = size(best);
      for (int s = S_MAX - 1; s >= 0; --s) {
        if (best.v[s].empty()) continue;
        Replay c = best; c.v[s].clear(); if (attempt(c)) continue;
        // truncate tail, then zero blocks, then delete blocks
        for (size_t len = best.v[s].size() / 2; len > 0 && wall() < until; len /= 2)
          while (best.v[s].size() > len) { Replay d = best; d.v[s].resize(best.v[s].size() - len); if (!attempt(d)) break; }
        for (size_t blk = std::max<size_t>(1, best.v[s].size() / 4); ; blk /= 2) {
          for (size_t p = 0; p < best.v[s].size() && wall() < until; p += blk) {
            size_t e = std::min(p + blk, best.v[s].size()); bool any = false;
            for (size_t i = p; i < e; ++i) any |= best.v[s][i] != 0;
            if (!any) continue;
            Replay d = best; std::fill(d.v[s].begin() + p, d.v[s].begin() + e, 0u); attempt(d);
          }
          if (blk <= 1 || wall() > until) break;
        }
        if (s >= S_WORK || s == S_CFG)
          for (size_t i = 0; i < best.v[s].size() && wall() < until; ++i)
            if (best.v[s][i] > 1) { Replay d = best; d.v[s][i] = 1; if (!attempt(d)) { d = best; d.v[s][i] /= 2; attempt(d); } }
      }
      if (nonzero(best) >= before && size(best) >= bsz) break;
    }
  }
};

static std::string trace_of(const World& w, uint64_t seed, const Replay& r)
{
  // re-run verbosely with stderr captured
  int save = dup(2); lseek(errfd, 0, SEEK_SET); if (ftruncate(errfd, 0)) {} dup2(errfd, 2);
  run_one(w, seed, &r, true, 60);
  dup2(save, 2); close(save);
  return read_err();
}

int main(int argc, char** argv)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  // tables the C++ library fills on first use must be the same in every process
  { auto& ct = std::use_facet<std::ctype<char>>(std::locale::classic()); for (int c = 0; c < 256; ++c) { ct.widen((char)c); ct.narrow((char)c, '\0'); ct.narrow((char)c, '*'); } }
  std::map<std::string, std::string> a; std::string cmd = argc > 1 ? argv[1] : "", file = argc > 2 ? argv[2] : "";
  for (int i = 2; i < argc; ++i) if (!strncmp(argv[i], "--", 2)) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { a[argv[i] + 2] = argv[i + 1]; ++i; } else a[argv[i] + 2] = "1"; }
  auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
  out = (Outcome*)mmap(nullptr, sizeof(Outcome), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  choices = (Choice*)mmap(nullptr, sizeof(Choice) * (size_t)MAX_CHOICES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sim_edge_map = (uint8_t*)mmap(nullptr, sim_edge_n + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  errfd = memfd_create("err", 0);
  signal(SIGPIPE, SIG_IGN);
  warm_up();
  memset(sim_edge_map, 0, sim_edge_n);

  if (cmd == "list") { for (auto& w : worlds()) printf("%s %s\n", w.prop, w.name); return 0; }
  if (cmd == "replay" || cmd == "minimize") {
    Replay r; uint64_t seed = 0, hash = 0; std::string cls;
    const World* w = load_replay(file, r, seed, cls, hash);
    if (!w) { fprintf(stderr, "bad replay file %s\n", file.c_str()); return 3; }
    pin((int)num("cpu", 0));
    if (cmd == "replay") {
      Res x = run_one(*w, seed, &r, a.count("v"), 120);
      printf("%s hash=%016lx class=%s %s\n", x.status == 2 ? "VIOLATION" : x.status == 1 ? "OK" : "ERROR", (unsigned long)x.hash, x.cls.c_str(), esc(x.msg).c_str());
      if (x.status == 3) return 3;
      return x.status == 2 ? 1 : 0;
    }
    Minimiser m; m.w = w; m.seed = seed; m.cls = cls; m.best = r; m.until = wall() + num("budget", 30); m.lim = 30;
    Res x = run_one(*w, seed, &r, false, 120);
    if (x.status != 2 || x.cls != cls) { printf("NOT-REPRODUCED %s\n", x.cls.c_str()); return 3; }
    m.bestres = x; m.lim = 20;
    size_t n0 = Minimiser::nonzero(r), s0 = Minimiser::size(r);
    m.go();
    std::string tr = trace_of(*w, seed, m.best);
    if (tr.size() > 60000) tr = tr.substr(0, 20000) + "\n...\n" + tr.substr(tr.size() - 40000);
    write_replay(a["out"], *w, seed, m.bestres, m.best, tr);
    printf("minimised choices %zu->%zu nonzero %zu->%zu tries %d class=%s msg=%s\n", s0, Minimiser::size(m.best), n0, Minimiser::nonzero(m.best), m.tries, m.bestres.cls.c_str(), esc(m.bestres.msg).c_str());
    return 0;
  }
  if (cmd == "one") {   // one run from a seed: simrun one --prop P --seed S --index I [--v]
    uint64_t s = a.count("raw") ? strtoull(a["raw"].c_str(), 0, 10) : run_seed(strtoull(a["seed"].c_str(), 0, 10), a["prop"], (uint64_t)num("index", 0));
    const World* w = a.count("world") ? find_world(a["prop"], a["world"]) : world_for(a["prop"], s);
    if (!w) return 3;
    Res x = run_one(*w, s, nullptr, a.count("v"), 300);
    printf("world=%s seed=%lu status=%d hash=%016lx steps=%lu edges=%lu switches=%lu sim=%.6fs choices=%u class=%s\n%s\n", w->name, (unsigned long)s, x.status, (unsigned long)x.hash, (unsigned long)out->steps, (unsigned long)out->edges, (unsigned long)out->switches, out->sim_ns / 1e9, out->nchoice, x.cls.c_str(), x.msg.c_str());
    if (a.count("save")) write_replay(a["save"], *w, s, x, collect(), "");
    return 0;
  }
  if (cmd != "run") { fprintf(stderr, "usage: simrun run|replay|minimize|one|list\n"); return 3; }

  // run --prop P --seed S --worker K --workers N --count C --seconds T --outdir D
  std::string prop = a["prop"], dir = a["outdir"]; uint64_t base = strtoull(a["seed"].c_str(), 0, 10);
  int worker = (int)num("worker", 0), nw = (int)num("workers", 1); uint64_t count = (uint64_t)num("count", 100);
  double until = wall() + num("seconds", 60);
  pin(worker);
  uint64_t runs = 0, steps = 0, edges = 0, switches = 0, simns = 0, bytes = 0, calls = 0, nontriv = 0; std::vector<uint64_t> faults(F_COUNT, 0);
  std::map<std::string, uint64_t> probes, probe_runs, per_world; std::map<std::string, std::string> viol;
  std::unordered_set<uint64_t> hashes, nthashes; std::vector<std::string> samples;
  std::ofstream hl; if (a.count("hashlog")) hl.open(dir + "/hashes." + std::to_string(worker));
  int violations = 0, errors = 0; std::string errmsg; uint64_t verified = 0, mismatched = 0, retried = 0;
  bool stop_on_violation = !a.count("keep-going");
  std::set<std::string> known; { std::istringstream ks(a["known"]); std::string k; while (std::getline(ks, k, ',')) known.insert(k); }
  double t0 = wall();
  std::string stopfile = dir + "/stop";
  for (uint64_t i = worker; i < count && wall() < until && access(stopfile.c_str(), F_OK); i += nw) {
    uint64_t s = run_seed(base, prop, i);
    const World* w = world_for(prop, s);
    if (!w) { fprintf(stderr, "no world for %s\n", prop.c_str()); return 3; }
    if (a.count("only") && a["only"] != w->name) continue;
    Res r = run_one(*w, s, nullptr, false, 60);
    if (r.status == 3 && r.cls == "wall-timeout") { ++retried; r = run_one(*w, s, nullptr, false, 240); } // a loaded machine is no error
    ++runs; steps += out->steps; edges += out->edges; switches += out->switches; simns += out->sim_ns; bytes += out->net_bytes; calls += out->calls;
    per_world[w->name]++;
    for (int k = 0; k < F_COUNT; ++k) faults[k] += out->faults[k];
    for (uint32_t k = 0; k < out->nprobe; ++k) { probes[out->probes[k].name] += out->probes[k].n; probe_runs[out->probes[k].name]++; }
    hashes.insert(out->sched_hash);
    if (out->nontrivial) { ++nontriv; nthashes.insert(out->sched_hash); }
    if (hl.is_open()) hl << i << " " << std::hex << r.hash << std::dec << " " << r.status << " " << r.cls << "\n";
    if (samples.size() < 2 && r.status == 1 && out->opslen) {
      std::ostringstream o; o << "seed " << s << " world " << w->name << ": " << out->ops; samples.push_back(o.str().substr(0, 1500));
    }
    // continuous determinism check: repeat some runs and compare event-log hashes
    if (r.status == 1 && (i / nw) % 40 == 7) {
      ++verified; Res q = run_one(*w, s, nullptr, false, 240);
      if (q.hash != r.hash) { ++mismatched; ++errors; errmsg = "run " + std::to_string(s) + " in world " + w->name + " is not deterministic"; }
    }
    if (r.status == 3) { ++errors; errmsg = r.cls + ": " + r.msg + " (seed " + std::to_string(s) + " world " + w->name + ")"; if (errors > 20) break; }
    if (r.status == 2) {
      ++violations;
      if (!viol.count(r.cls)) {
        // with --keep-going only classes are listed
        Res q = run_one(*w, s, nullptr, false, 240);
        if (q.status != 2 || q.cls != r.cls || (q.hash != r.hash)) { ++errors; errmsg = "violation did not repeat: seed " + std::to_string(s) + " " + r.cls + " vs " + q.cls; continue; }
        std::string path = dir + "/viol." + std::to_string(worker) + "." + std::to_string(viol.size()) + ".replay";
        write_replay(path, *w, s, q, collect(), "");
        viol[r.cls] = path + "\t" + w->name + "\t" + std::to_string(s) + "\t" + q.msg;
      }
      if (stop_on_violation && !known.count(r.cls)) { std::ofstream(stopfile) << r.cls << "\n"; break; }
    }
  }
  std::ofstream f(dir + "/result." + std::to_string(worker) + ".json");
  f << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"edges\":" << edges << ",\"switches\":" << switches << ",\"sim_s\":" << simns / 1e9 << ",\"wall\":" << wall() - t0
    << ",\"net_bytes\":" << bytes << ",\"calls\":" << calls << ",\"nontrivial\":" << nontriv << ",\"violations\":" << violations << ",\"errors\":" << errors << ",\"retried\":" << retried << ",\"errmsg\":\"" << esc(errmsg) << "\""
    << ",\"repeated\":" << verified << ",\"mismatched\":" << mismatched;
  auto mapout = [&](const char* n, const std::map<std::string, uint64_t>& m) { f << ",\"" << n << "\":{"; bool c = false; for (auto& x : m) { if (c) f << ","; c = true; f << "\"" << esc(x.first) << "\":" << x.second; } f << "}"; };
  std::map<std::string, uint64_t> fm; for (int k = 0; k < F_COUNT; ++k) fm[fault_names[k]] = faults[k];
  mapout("faults", fm); mapout("probes", probes); mapout("probe_runs", probe_runs); mapout("worlds", per_world);
  f << ",\"viol\":["; bool c = false;
  for (auto& v : viol) { if (c) f << ","; c = true; f << "{\"class\":\"" << esc(v.first) << "\",\"info\":\"" << esc(v.second) << "\"}"; }
  f << "],\"samples\":["; c = false;
  for (auto& v : samples) { if (c) f << ","; c = true; f << "\"" << esc(v) << "\""; }
  f << "],\"hashes\":["; c = false;
  for (auto h : nthashes) { if (c) f << ","; c = true; f << h; }
  f << "],\"edge_n\":" << sim_edge_n << ",\"edges_hit\":["; c = false;
  for (uint32_t i = 1; i <= sim_edge_n; ++i) if (sim_edge_map[i]) { if (c) f << ","; c = true; f << i; }
  f << "]}\n";
  return 0;
}
