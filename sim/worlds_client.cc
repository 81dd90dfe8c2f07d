// Worlds about the client side: timeouts, recovery, foreign answers, plain proxy.
#include "lab.h"
#include <cstring>
using namespace lab;

namespace {
const uint32_t FAR = 0x0a000201;                        // 10.0.2.1, host of scripted servers

// One request of a client, up to its end; false when the peer went away or the time is over.
bool read_request(Raw& r, std::string& body, Time limit)
{
  HttpMsg m = r.read_http(limit);
  body = m.body;
  return m.ok;
}
std::string str_value(const std::string& s) { return "<string>" + s + "</string>"; }
}

// ---- R09 ---------------------------------------------------------------------------
namespace {
struct Plan {
  enum Kind { ANSWER, BLACKHOLE, SLOW_CONNECT, NO_READ, SLOW_READ, SILENT, PARTIAL, TRICKLE, GAP, HS_SILENT, HS_CUT, HS_GAP, PX_SILENT, PX_GAP, KINDS } kind = ANSWER;
  Time delay = 0; size_t at = 0, big = 0; bool expect_timeout = false, tunnel = false; std::string token;
};
const char* const plan_names[] = {"answer", "blackhole", "slow-connect", "no-read", "slow-read", "silent", "partial", "trickle", "gap", "handshake-silent", "handshake-cut", "handshake-gap", "proxy-silent", "proxy-gap"};

// Serves one client according to the plan of its current call, each connection in its own thread.
void timed_conn(int fd, const Plan& plan, const bool& over)
{
  Raw r; r.fd = fd;
  if (wire_tls) {
    Plan p; { NoPreempt np; p = plan; }
    auto leave = [&] { fault(F_PEER_STALL); wait_until([&] { return over || plan.token != p.token; }, NEVER, "next call"); r.close(); };
    if (p.tunnel) {
      while (r.buf.find("\r\n\r\n") == std::string::npos && !r.eof && !r.err) r.recv_some(100000000 * SEC);
      if (p.kind == Plan::PX_SILENT) { leave(); return; }
      if (p.kind == Plan::PX_GAP) { fault(F_PEER_STALL); sim::sleep(p.delay); }
      r.buf.clear(); if (r.eof || r.err || !r.send("HTTP/1.0 200 OK\r\n\r\n")) { r.close(); return; }
    }
    if (p.kind == Plan::HS_SILENT) { leave(); return; }
    if (p.kind == Plan::HS_CUT) { { TlsRaw t(r, true, 3); t.cut_at = 1 + p.at % 300; t.handshake(100000000 * SEC); } leave(); return; }
    if (p.kind == Plan::HS_GAP) { fault(F_PEER_STALL); sim::sleep(p.delay); }
    if (!r.start_tls(true, 3, 100000000 * SEC)) { r.close(); return; }
  }
  while (!over) {
    // which plan applies is known once the first byte of a request arrives
    while (r.buf.empty() && !r.eof && !r.err) r.recv_some(100000000 * SEC);
    if (r.eof || r.err || over) break;
    const Plan p = plan;
    auto next_call = [&] { wait_until([&] { return over || plan.token != p.token; }, NEVER, "next call"); };
    if (p.kind == Plan::NO_READ) { fault(F_PEER_STALL); next_call(); break; }
    if (p.kind == Plan::SLOW_READ) {                    // takes some bytes, pauses, takes the rest in steps
      fault(F_PEER_STALL);
      for (int i = 0; i < 4 && !over; ++i) { sim::sleep(p.delay); r.recv_some(0); }
    }
    std::string body;
    if (!read_request(r, body, 100000000 * SEC)) break;
    std::string ans = http_response(xml_ok(str_value(p.token)), "connection: keep-alive\r\n");
    size_t at = p.at % ans.size();
    bool ok = true;
    if (p.kind != Plan::ANSWER) fault(F_PEER_STALL);
    switch (p.kind) {
    case Plan::SILENT: next_call(); ok = false; break;
    case Plan::PARTIAL: r.send(ans.substr(0, at + (at == 0))); next_call(); ok = false; break;
    case Plan::GAP: ok = r.send(ans.substr(0, at)); sim::sleep(p.delay); ok = ok && r.send(ans.substr(at)); break;
    case Plan::TRICKLE:
      for (size_t o = 0, n; ok && o < ans.size(); o += n) { n = std::min<size_t>(ans.size() - o, ans.size() / 5 + 1); sim::sleep(p.delay); ok = r.send(ans.substr(o, n)); }
      break;
    default: ok = r.send(ans);
    }
    if (!ok) break;
  }
  r.close();
}
void timed_server(int port, const Plan& plan, const bool& over)
{
  Listener l; if (!l.open(FAR, port)) harness_error("listener");
  while (!over) {
    int fd = l.accept(100000000 * SEC);
    if (fd >= 0) spawn("conn", [fd, &plan, &over] { timed_conn(fd, plan, over); }, FAR, true);
  }
  l.close();
}
}

WORLD(R09, timeouts, 1)
{
  swarm_sched(); swarm_net(); draw_tls(3); if (wire_tls) draw_role(false);
  knobs.lat_max = std::min<Time>(knobs.lat_max, 10 * MS);
  if (choose(S_CFG, 3) == 1) knobs.eintr_permille = range(S_CFG, 50, 600);
  bool jumps = choose(S_CFG, 3) == 1;
  int ncl = range(S_CFG, 1, 3); bool over = false;
  std::vector<int> ids; std::vector<std::unique_ptr<Plan>> plans;
  for (int k = 0; k < ncl; ++k) plans.emplace_back(new Plan);
  for (int k = 0; k < ncl; ++k) {
    Plan& plan = *plans[k];
    spawn("far" + std::to_string(k), [&, k] { timed_server(PORT + k, plan, over); }, FAR, true);
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k, port = PORT + k;
      wait_until([port] { return has_listener(FAR, port); }, 10 * SEC, "listener");
      bool proxied = choose(st, 4) == 1;
      auto c = make_client(iqnet::Inet_addr(proxied ? "10.0.9.9" : "10.0.2.1", port));
      if (proxied) c->set_proxy(iqnet::Inet_addr("10.0.2.1", port));
      bool ka = choose(st, 2); c->set_keep_alive(ka);
      int ncalls = range(st, 1, 5); bool cached = false;
      for (int i = 0; i < ncalls; ++i) {
        static const int tv[] = {-1, 1, 2, 5, 20, 300, 4000, 86400};
        int to = tv[choose(st, 8)]; c->set_timeout(to);
        Time T = to > 0 ? (Time)to * SEC : 0, margin = 100 * MS;
        Plan p; p.kind = (Plan::Kind)choose(st, Plan::KINDS);
        p.tunnel = proxied && wire_tls;
        if (!p.tunnel && p.kind == Plan::PX_SILENT) p.kind = Plan::HS_SILENT;
        if (!p.tunnel && p.kind == Plan::PX_GAP) p.kind = Plan::HS_GAP;
        if (p.kind >= Plan::HS_SILENT && (!wire_tls || cached)) p.kind = p.kind == Plan::HS_GAP || p.kind == Plan::PX_GAP ? Plan::GAP : p.kind == Plan::HS_CUT ? Plan::PARTIAL : Plan::SILENT;
        p.token = "k" + std::to_string(k) + "." + std::to_string(i); p.at = choose(st, 400); p.big = 0;
        Time below = T ? (Time)choose(st, 1001) * (T - margin) / 1000 : (Time)choose(st, 3000) * SEC, above = T + margin + (Time)choose(st, 1000) * 10 * MS;
        bool late = T && choose(st, 2);
        if (cached && (p.kind == Plan::BLACKHOLE || p.kind == Plan::SLOW_CONNECT)) p.kind = Plan::ANSWER;
        if (!T && (p.kind == Plan::BLACKHOLE || p.kind == Plan::NO_READ || p.kind == Plan::SILENT || p.kind == Plan::PARTIAL || p.kind == Plan::HS_SILENT || p.kind == Plan::HS_CUT || p.kind == Plan::PX_SILENT)) p.kind = Plan::GAP;
        switch (p.kind) {
        case Plan::BLACKHOLE: p.expect_timeout = true; break;
        case Plan::SLOW_CONNECT: p.delay = late ? above : below; p.expect_timeout = late; break;
        case Plan::NO_READ: p.big = 600000; p.expect_timeout = true; break;
        case Plan::SLOW_READ: p.big = choose(st, 2) && !knobs.lat_max ? 600000 : 100; /* bulk over a slow line is slow by itself */ p.delay = below / 5; break;
        case Plan::SILENT: case Plan::PARTIAL: case Plan::HS_SILENT: case Plan::HS_CUT: case Plan::PX_SILENT: p.expect_timeout = true; break;
        case Plan::TRICKLE: p.delay = below; break;
        case Plan::GAP: case Plan::HS_GAP: case Plan::PX_GAP: p.delay = late ? above : below; p.expect_timeout = late; break;
        default: break;
        }
        { NoPreempt np; plan = p; }
        if (p.kind == Plan::BLACKHOLE) set_blackhole(FAR, port, true);
        if (p.kind == Plan::SLOW_CONNECT) set_syn_delay(FAR, port, p.delay);
        Param_list pl; pl.push_back(Value(std::string(p.big, 'x'))); pl.push_back(Value(p.token));
        Out o = call(*c, "m", pl);
        op("call %s plan %s timeout %d delay %ld ms keep-alive %d -> %s after %ld ms", p.token.c_str(), plan_names[p.kind], to, (long)(p.delay / MS), ka, o.str().substr(0, 60).c_str(), (long)((o.ended - o.began) / MS));
        set_blackhole(FAR, port, false); set_syn_delay(FAR, port, 0);
        Time prog = std::max(o.began, self()->last_net_ok), idle = o.ended - prog;
        if (p.expect_timeout) {
          CHECK(o.kind == Out::TIMEOUT, "no-timeout", "peer silent (%s) for longer than the timeout of %d s, call ended with %s", plan_names[p.kind], to, o.str().c_str());
          nontrivial(); probe(plan_names[p.kind]);
        } else {
          CHECK(o.kind != Out::TIMEOUT, "early-timeout", "peer (%s) was never idle for longer than %.3f s but the call timed out, timeout %d s, %.3f s after the last progress", plan_names[p.kind], (p.kind == Plan::SLOW_READ ? below : p.delay) / 1e9, to, idle / 1e9);
          CHECK(o.ok() && o.value().is_string() && o.value().get_string() == p.token, "wrong-outcome", "plan %s: %s", plan_names[p.kind], o.str().c_str());
          if (p.delay) nontrivial();
        }
        if (o.kind == Out::TIMEOUT) {
          CHECK(idle >= T - 2 * MS, "early-timeout", "timed out %.3f s after the last progress, timeout is %d s (%s)", idle / 1e9, to, plan_names[p.kind]);
          CHECK(idle <= T + 250 * MS, "late-timeout", "timed out only %.3f s after the last progress, timeout is %d s (%s)", idle / 1e9, to, plan_names[p.kind]);
        }
        cached = ka && o.ok();
        if (chance(st, 200)) { ka = !ka; c->set_keep_alive(ka); if (!ka) cached = false; }
        if (chance(st, 200)) sim::sleep((Time)choose(st, 100) * SEC);
      }
    }, peer_ip(k)));
  }
  if (jumps)
    spawn("clock", [&] {
      for (int i = 0; i < 50 && !over; ++i) {
        sim::sleep((Time)choose(S_FAULT, 100) * 37 * MS + MS);
        clock_jump(((Time)choose(S_FAULT, 2001) - 1000) * 10 * SEC);
      }
    });
  CHECK(join(ids, 100000000 * SEC), "call-hangs", "calls never return: %s", unfinished(ids).c_str());
  over = true;
}

// ---- R10 ---------------------------------------------------------------------------
// A real server that comes and goes, a network and a name service that fail for a while.
WORLD(R10, outages, 2)
{
  swarm_sched(); swarm_net(); draw_tls(4); swarm_faults(true, true, 3 * SEC);
  if (choose(S_CFG, 3) == 1) knobs.dns_fail_permille = 300;
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  knobs.fault_until = (Time)range(S_CFG, 1, 20) * SEC;
  add_host("server.sim", SRV, choose(S_CFG, 6) == 1 ? range(S_CFG, 1, 200) : 0);
  int pool = range(S_CFG, 0, 3), ncl = range(S_CFG, 1, 3);
  bool restarts = choose(S_CFG, 2), dns_down = false, clear = false;
  dns_override([&](const std::string&) { return dns_down ? 2 : 0; });
  ServerNode sv(pool); Ledger lg; lg.install(sv);
  sv.start();
  iqnet::Inet_addr shared("server.sim", PORT);
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      iqnet::Inet_addr own(choose(st, 2) ? "10.0.0.1" : "server.sim", PORT);
      auto c = make_client(choose(st, 2) ? shared : own, "/RPC");
      bool ka = choose(st, 2); c->set_keep_alive(ka); c->set_timeout(range(st, 2, 6));
      int failed = 0, n = 0;
      auto one = [&] {
        std::string t = "k" + std::to_string(k) + "." + std::to_string(n++);
        Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 10))); p.push_back(Value((int)(chance(st, 200) ? 90000 : 0)));
        Out o = call(*c, "run", p);
        op("call %s keep-alive %d -> %s", t.c_str(), ka, o.str().substr(0, 60).c_str());
        if (o.response()) CHECK(o.ok() && o.value().get_string().compare(0, t.size() + 2, "A:" + t) == 0, "wrong-answer", "call %s: %s", t.c_str(), o.str().substr(0, 200).c_str());
        return o;
      };
      while (!clear && n < 40) {
        if (!one().response()) ++failed;
        if (chance(st, 150)) { ka = !ka; c->set_keep_alive(ka); }
        sim::sleep((Time)choose(st, 800) * MS);
      }
      wait_until([&] { return clear; }, NEVER, "faults gone");
      if (failed) nontrivial();
      if (chance(st, 300)) { ka = !ka; c->set_keep_alive(ka); }
      Out first = one();
      for (int i = 0; i < 3; ++i) {
        Out o = one();
        CHECK(o.ok(), "no-recovery", "all faults are gone, call %d after that still fails: %s (%d failures before, keep-alive %d, first call: %s)", i + 2, o.str().substr(0, 200).c_str(), failed, ka, first.str().substr(0, 100).c_str());
      }
    }, peer_ip(k)));
  // outages until all faults end
  while (now() < knobs.fault_until) {
    sim::sleep((Time)choose(S_FAULT, 1500) * MS + MS);
    switch (choose(S_FAULT, 7)) {
    case 0: break;
    case 1: freeze_host(SRV); break;
    case 2: set_refuse(SRV, PORT, true); sim::sleep((Time)choose(S_FAULT, 3000) * MS); set_refuse(SRV, PORT, false); break;
    case 3: set_blackhole(SRV, PORT, true); sim::sleep((Time)choose(S_FAULT, 9000) * MS); set_blackhole(SRV, PORT, false); break;
    case 4: dns_down = true; sim::sleep((Time)choose(S_FAULT, 3000) * MS); dns_down = false; break;
    default:
      if (!restarts) break;
      fault(F_SRV_RESTART);
      CHECK(sv.stop(), "no-stop", "server does not stop");
      if (choose(S_FAULT, 2)) freeze_host(SRV);
      sim::sleep((Time)choose(S_FAULT, 4000) * MS);
      sv.start();
    }
  }
  sim::sleep(20 * SEC);      // stalled segments drain, pending requests of abandoned calls are done
  clear = true;
  CHECK(join(ids, 100000 * SEC), "call-hangs", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("calls");
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// One fault at a time, gone at a known moment; the calls right after it are judged without any time to settle.
WORLD(R10, recover, 1)
{
  swarm_sched(); swarm_net(); draw_tls(3);
  add_host("server.sim", SRV, choose(S_CFG, 6) == 1 ? range(S_CFG, 1, 200) : 0);
  bool dns_down = false; dns_override([&](const std::string&) { return dns_down ? 2 : 0; });
  ServerNode sv(range(S_CFG, 0, 2)); Ledger lg; lg.install(sv); sv.start();
  iqnet::Inet_addr shared("server.sim", PORT);
  int cl = spawn("client", [&] {
    int st = S_WORK, n = 0, rounds = range(st, 1, 5); bool named = choose(st, 2), late = choose(st, 2);
    // an address whose name has not been looked up yet, or one that has
    std::unique_ptr<iqnet::Inet_addr> own(new iqnet::Inet_addr(named ? "server.sim" : "10.0.0.1", PORT));
    auto c = make_client(choose(st, 2) ? shared : *own, "/RPC");
    bool ka = choose(st, 2); c->set_keep_alive(ka); c->set_timeout(range(st, 1, 4));
    auto one = [&](int delay) {
      std::string t = "c" + std::to_string(n++);
      Param_list p; p.push_back(Value(t)); p.push_back(Value(delay)); p.push_back(Value((int)(chance(st, 100) ? 70000 : 0)));
      Out o = call(*c, "run", p);
      op("call %s keep-alive %d -> %s", t.c_str(), ka, o.str().substr(0, 60).c_str());
      if (o.response()) CHECK(o.ok() && o.value().get_string().compare(0, t.size() + 2, "A:" + t) == 0, "wrong-answer", "call %s: %s", t.c_str(), o.str().substr(0, 200).c_str());
      return o;
    };
    for (int i = 0; i < rounds; ++i) {
      int kind = (int)choose(st, 7), during = chance(st, 20) ? range(st, 10, 150) : range(st, 1, 3); if (late && i == 0) kind = 3; 
      if (chance(st, 200)) { ka = !ka; c->set_keep_alive(ka); }
      static const char* names[] = {"refused", "unreachable", "restarted", "no name", "crashed", "slow method", "stopped"}; op("fault %s, %d calls", names[kind], during);
      int failed = 0;
      switch (kind) {
      case 0: set_refuse(SRV, PORT, true); if (choose(st, 2)) freeze_host(SRV); for (int j = 0; j < during; ++j) failed += !one(0).ok(); set_refuse(SRV, PORT, false); break;
      case 1: set_blackhole(SRV, PORT, true); if (choose(st, 2)) freeze_host(SRV); for (int j = 0; j < during; ++j) failed += !one(0).ok(); set_blackhole(SRV, PORT, false); break;
      case 2: fault(F_SRV_RESTART); CHECK(sv.stop(), "no-stop", "server does not stop"); if (choose(st, 2)) freeze_host(SRV); sv.start(); break;
      case 3: dns_down = true; if (choose(st, 2)) freeze_host(SRV); for (int j = 0; j < during; ++j) failed += !one(0).ok(); dns_down = false; break;
      case 4: freeze_host(SRV); break;
      case 5: for (int j = 0; j < during; ++j) failed += !one(range(st, 1, 60) * 100).ok(); sim::sleep((Time)(2 + 6 * during) * SEC); break;     // longer than the timeout; then the methods are over
      default: fault(F_SRV_RESTART); CHECK(sv.stop(), "no-stop", "server does not stop"); freeze_host(SRV); for (int j = 0; j < during; ++j) failed += !one(0).ok(); sv.start();
      }
      if (failed) nontrivial();
      if (choose(st, 3) == 1) sim::sleep((Time)choose(st, 100) * MS);
      Out first = one(0);
      for (int j = 0; j < 2; ++j) {
        Out o = one(0);
        CHECK(o.ok(), "no-recovery", "the fault (%s) is gone, call %d after that still fails: %s (%d failures before, keep-alive %d, first call: %s)", names[kind], j + 2, o.str().substr(0, 200).c_str(), failed, ka, first.str().substr(0, 100).c_str());
      }
    }
  }, peer_ip(0));
  CHECK(join({cl}, 100000 * SEC), "call-hangs", "calls never return: %s", unfinished({cl}).c_str());
  sv.expect_alive("calls");
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// A scripted server that closes, resets or cuts short at chosen points.
WORLD(R10, scripted, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4); if (wire_tls) draw_role(false);
  bool over = false, clear = false;
  spawn("far", [&] {
    int st = S_WORK + 9; Listener l; l.open(FAR, PORT);
    while (!over) {
      int fd = l.accept(SEC);
      if (fd < 0) continue;
      Raw r; r.fd = fd;
      if (!clear && choose(st, 6) == 1) { fault(F_PEER_CLOSE); if (choose(st, 2)) r.reset(); continue; }
      if (!r.accepted(fd, 30 * SEC)) continue;
      std::string body;
      while (!over && read_request(r, body, 30 * SEC)) {
        size_t a = body.find("<string>"), b = body.find("</string>");
        std::string tok = a == std::string::npos ? "?" : body.substr(a + 8, b - a - 8);
        int how = clear ? 0 : (int)choose(st, 8);
        if (how == 6) { fault(F_PEER_CLOSE); break; }
        if (how == 7) { fault(F_PEER_RESET); r.reset(); break; }
        if (how == 5) { fault(F_PEER_STALL); wait_until([&] { return clear; }, 10 * SEC, "stall"); }
        bool ka = choose(st, 2);
        std::string ans = http_response(xml_ok(str_value("A:" + tok)), ka ? "connection: keep-alive\r\n" : "");
        if (how == 4) { fault(F_PEER_CLOSE); r.send(ans.substr(0, choose(st, (uint32_t)ans.size()))); if (choose(st, 2)) r.reset(); break; }
        if (how == 3) { fault(F_PEER_GARBAGE); if (!r.send(http_response("<nonsense>"))) break; continue; }
        if (!r.send(ans)) break;
        if (how == 2) { fault(F_PEER_CLOSE); if (choose(st, 2)) sim::sleep((Time)choose(st, 100) * MS); break; }
        if (clear && choose(st, 4) == 1) { probe("idle_close"); break; }     // closing between calls is allowed at any time
      }
    }
  }, FAR, true);
  wait_until([] { return has_listener(FAR, PORT); }, 10 * SEC, "listener");
  int cl = spawn("client", [&] {
    int st = S_WORK; auto c = make_client(iqnet::Inet_addr("10.0.2.1", PORT));
    bool ka = choose(st, 2); c->set_keep_alive(ka); c->set_timeout(range(st, 2, 5)); int n = 0, failed = 0, row = 0;
    int before = range(st, 1, 10);
    for (int i = 0; i < before + 6; ++i) {
      if (i == before) { clear = true; sim::sleep(20 * SEC); row = 0; }   // the server works off what waits for it, then behaves
      std::string t = "c" + std::to_string(n++);
      Param_list p; p.push_back(Value(t));
      Out o = call(*c, "run", p);
      op("call %s keep-alive %d -> %s", t.c_str(), ka, o.str().substr(0, 60).c_str());
      if (o.response()) CHECK(o.ok() && o.value().get_string() == "A:" + t, "wrong-answer", "call %s: %s", t.c_str(), o.str().c_str());
      row = o.ok() ? 0 : row + 1;
      if (!o.ok()) { ++failed; nontrivial(); }
      // a server may close a kept connection at any time, which fails one call; a fresh connection then works
      if (i >= before) CHECK(row < 2, "no-recovery", "server behaves again, but two calls in a row fail: %s (keep-alive %d)", o.str().c_str(), ka);
      if (i > before && !ka) CHECK(o.ok(), "no-recovery", "server behaves again, call without keep-alive fails: %s", o.str().c_str());
      if (chance(st, 100)) { ka = !ka; c->set_keep_alive(ka); }
      if (chance(st, 300)) sim::sleep((Time)choose(st, 3000) * MS);
    }
  }, peer_ip(0));
  CHECK(join({cl}, 100000 * SEC), "call-hangs", "call never returns\n%s", thread_dump().c_str());
  over = true;
}

// ---- R22 ---------------------------------------------------------------------------
namespace {
struct Answer { std::string bytes; enum Exp { OK, FAULT, HTTP, ERROR, SAME } exp = OK; int code = 0; std::string text; int end = 0; /* 0 keep open, 1 close, 2 reset */ };

Answer rnd_answer(int st)
{
  Answer a; static const char* nls[] = {"\r\n", "\n"}; std::string nl = nls[choose(st, 4) == 1];
  auto pad_to = [&](const std::string& head, std::string body_a, std::string body_b, size_t fill) { return body_a + std::string(fill, 'p') + body_b; };
  size_t fill = choose(st, 60);
  if (choose(st, 3) == 1) fill = (size_t)(65536 * range(st, 1, 3) - 300 + choose(st, 400));
  std::string extra; int nx = (int)choose(st, 3);
  static const char* xs[] = {"server: other/1.0", "X-Thing: a:b", "date: Sun, 06 Nov 1994 08:49:37 GMT", "Connection: close", "connection: keep-alive"};
  for (int i = 0; i < nx; ++i) extra += xs[choose(st, 5)] + nl;
  static const char* cls[] = {"content-length: ", "Content-Length: ", "CONTENT-LENGTH:", "Content-length:   "};
  std::string cl = cls[choose(st, 4)];
  static const char* cts[] = {"content-type: text/xml", "Content-Type: text/xml; charset=utf-8", "content-type: Text/XML;charset=\"UTF-8\"", "CONTENT-TYPE:text/xml"}; std::string ct = cts[choose(st, 4)];
  static const char* vers[] = {"HTTP/1.1", "HTTP/1.0"}; std::string ver = vers[choose(st, 2)];
  auto msg = [&](const std::string& status, const std::string& body) {
    return ver + " " + status + nl + extra + cl + std::to_string(body.size()) + nl + ct + nl + nl + body;
  };
  int kind = (int)choose(st, 9);
  std::string val = pad_to("", "v" + std::to_string(choose(st, 1000)), "", fill);
  std::string good = kind == 1 ? xml_fault((int)choose(st, 2000) - 1000, "oops") : xml_ok(str_value(val));
  switch (kind) {
  case 0: a.bytes = msg("200 OK", good); a.text = val; break;
  case 1: {
    a.exp = Answer::FAULT; a.code = choose(st, 3) ? (int)choose(st, 2000) - 1000 : odd_code(st); a.text = "oops" + std::to_string(a.code);
    if (choose(st, 4) == 1) a.text = std::string(choose(st, 3), ' ');
    std::string b = xml_fault(a.code, a.text);
    if (choose(st, 3) == 1) {                                  // the members the other way round, text without tags where it can be
      std::string fc = "<member><name>faultCode</name><value><i4>" + std::to_string(a.code) + "</i4></value></member>", fs = "<member><name>faultString</name><value>" + (a.text.find('o') == 0 ? a.text : "<string>" + a.text + "</string>") + "</value></member>";
      b = "<?xml version=\"1.0\"?><methodResponse><fault><value><struct>" + (choose(st, 2) ? fs + fc : fc + fs) + "</struct></value></fault></methodResponse>";
    }
    a.bytes = msg("200 OK", b); break; }
  case 2: {
    static const int codes[] = {201, 204, 301, 302, 400, 401, 403, 404, 405, 411, 413, 417, 500, 501, 502, 503, 504, 599};
    a.exp = Answer::HTTP; a.code = codes[choose(st, 18)];
    static const char* ph[] = {"Some", "Not Found", "", "A b c"};
    std::string body = choose(st, 2) ? good : choose(st, 2) ? "" : "<html>gone</html>";
    if (a.code == 204) body = "";
    a.bytes = msg(std::to_string(a.code) + " " + ph[choose(st, 4)], body); break; }
  case 3: {                                                     // malformed as HTTP
    a.exp = Answer::ERROR;
    switch (choose(st, 7)) {
    case 0: a.bytes = ver + nl + extra + cl + std::to_string(good.size()) + nl + nl + good; break;                     // no status
    case 1: a.bytes = ver + " 200 OK" + nl + extra + nl + good; break;                                                    // no length
    case 2: a.bytes = ver + " 200 OK" + nl + extra + cl + "abc" + nl + nl + good; break;
    case 3: a.bytes = ver + " 200 OK" + nl + extra + cl + "-5" + nl + nl + good; break;
    case 4: a.bytes = nl + nl + msg("200 OK", good); break;
    case 5: a.bytes = rnd_bytes(st, 1 + choose(st, 300), "abc <>/.:0123\r\n"); break;
    default: a.bytes = ver + " abc OK" + nl + extra + cl + std::to_string(good.size()) + nl + nl + good;
    }
    a.end = 1 + (int)choose(st, 2); break; }
  case 4: {                                                     // malformed as XML-RPC
    a.exp = Answer::ERROR; std::string b;
    switch (choose(st, 12)) {
    case 0: b = good.substr(0, good.size() - 1 - choose(st, 20)); break;
    case 1: b = "<html><body>" + val + "</body></html>"; break;
    case 2: b = "<?xml version=\"1.0\"?><methodResponse></methodResponse>"; break;
    case 3: b = "<?xml version=\"1.0\"?><methodResponse><params><param><value><int>12x</int></value></param></params></methodResponse>"; break;
    case 4: b = "<?xml version=\"1.0\"?><methodResponse><params><param><value><thing>1</thing></value></param></params></methodResponse>"; break;
    case 5: b = val; break;
    case 6: b = "<?xml version=\"1.0\"?><methodResponse><fault><value><string>x</string></value></fault></methodResponse>"; break;
    case 7: b = "<?xml version=\"1.0\"?><methodCall><methodName>x</methodName></methodCall>"; break;
    case 8: case 9: b = "<?xml version=\"1.0\"?><methodResponse><params><param>" + bad_value(st) + "</param></params></methodResponse>"; break;
    case 10: {
      const std::string v = "<value>x</value>", p = "<param>" + v + "</param>", fm = "<member><name>faultCode</name><value><i4>5</i4></value></member>", fs = "<member><name>faultString</name><value>f</value></member>";
      const std::string d[] = {"<params>" + p + p + "</params>", "<params>" + v + "</params>", p, "<params>" + p + "</params><params>" + p + "</params>", "<fault><value><struct>" + fm + "</struct></value></fault>", "<fault><value><struct>" + fs + "</struct></value></fault>",
        "<fault><value><i4>5</i4></value></fault>", "<fault><value><struct><member><name>faultCode</name><value>five</value></member>" + fs + "</struct></value></fault>", "<params>" + p + "</params><fault><value><struct>" + fm + fs + "</struct></value></fault>", "<foo/>", "<fault></fault>", "<params></params>"};
      b = "<?xml version=\"1.0\"?><methodResponse>" + d[choose(st, sizeof d / sizeof *d)] + "</methodResponse>"; break; }
    default: b = "";
    }
    a.bytes = msg("200 OK", b); break; }
  case 5: case 6:                                               // cut short
    a.exp = Answer::ERROR; a.bytes = msg("200 OK", good);
    if (choose(st, 4) == 1) a.bytes.erase(a.bytes.size() - 1 - choose(st, 4)); else a.bytes.resize(choose(st, (uint32_t)a.bytes.size()));
    a.end = 1 + (int)choose(st, 2); break;
  default: {                                                    // bytes changed at random: outcome unknown, but the same for every segmentation
    a.exp = Answer::SAME; a.bytes = msg("200 OK", good); int n = range(st, 1, 4);
    static const std::string al = "abcXYZ019 <>/&;:=\"-\x01\xff\x80";
    size_t hdr = a.bytes.size() - good.size();
    for (int i = 0; i < n; ++i) { size_t p = choose(st, (uint32_t)std::min<size_t>(a.bytes.size(), hdr + 300)); if (a.bytes[p] != '\r' && a.bytes[p] != '\n') a.bytes[p] = al[choose(st, (uint32_t)al.size())]; }
    a.end = 1; } }
  return a;
}
std::string outcome(const Out& o) { return o.ok() ? "OK " + vstr(o.value(), 1000000) : std::to_string(o.kind) + " " + std::to_string(o.code) + " " + o.text; }
}

WORLD(R22, answers, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4); if (wire_tls) draw_role(false);
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  bool over = false; Answer cur; int serial = 0;
  spawn("far", [&] {
    int st = S_WORK + 9; Listener l; l.open(FAR, PORT);
    while (!over) {
      int fd = l.accept(SEC);
      if (fd < 0) continue;
      Raw r; std::string body;
      if (!r.accepted(fd, 1000 * SEC)) continue;
      for (;;) {
        if (!read_request(r, body, 100000 * SEC)) break;
        Answer a; { NoPreempt np; a = cur; }
        if (a.exp != Answer::OK && a.exp != Answer::FAULT) fault(F_PEER_GARBAGE);
        bool sent = choose(st, 2) ? r.send_cut(a.bytes, rnd_cuts(st, a.bytes.size(), 6), (Time)choose(st, 3) * MS, st) : r.send(a.bytes);
        if (!sent) break;
        if (a.end == 1) { fault(F_PEER_CLOSE); r.close(); break; }
        if (a.end == 2) { fault(F_PEER_RESET); if (choose(st, 2)) wait_until([fd] { return tx_pending(fd) == 0; }, SEC, "flush"); r.reset(); break; }
      }
    }
  }, FAR, true);
  wait_until([] { return has_listener(FAR, PORT); }, 10 * SEC, "listener");
  int cl = spawn("client", [&] {
    int st = S_WORK; int n = range(st, 1, 6);
    auto fresh = [&] { auto c = make_client(iqnet::Inet_addr("10.0.2.1", PORT)); c->set_keep_alive(choose(st, 2)); if (choose(st, 4) == 1) c->set_timeout(100000); return c; };
    auto c = fresh();
    for (int i = 0; i < n; ++i) {
      Answer a = rnd_answer(st);
      { NoPreempt np; cur = a; ++serial; }
      std::string first;
      int reps = a.exp == Answer::SAME ? 3 : 1;
      for (int k = 0; k < reps; ++k) {
        if (reps > 1) c = fresh();
        Param_list p; p.push_back(Value(i));
        Out o = call(*c, "m", p);
        std::string got = outcome(o);
        op("answer kind %d end %d %zu bytes -> %s", a.exp, a.end, a.bytes.size(), got.substr(0, 60).c_str());
        auto ctx = [&] { return a.bytes.substr(0, 600); };
        switch (a.exp) {
        case Answer::OK: CHECK(o.ok() && o.value().is_string() && o.value().get_string() == a.text, "answer-lost", "valid answer of %zu bytes, call ended with %s", a.bytes.size(), got.substr(0, 300).c_str()); break;
        case Answer::FAULT: CHECK(o.kind == Out::FAULT && o.code == a.code && o.text == a.text, "answer-lost", "valid fault %d '%s', call ended with %s", a.code, a.text.c_str(), got.substr(0, 300).c_str()); break;
        case Answer::HTTP: CHECK(o.kind == Out::HTTP && o.code == a.code, "http-error-lost", "status %d, call ended with %s", a.code, got.substr(0, 300).c_str()); break;
        case Answer::ERROR: CHECK(!o.response() && o.kind != Out::TIMEOUT, "accepted-invalid", "invalid or incomplete answer, call ended with %s\n%s", got.substr(0, 300).c_str(), ctx().c_str()); break;
        case Answer::SAME:
          if (!k) first = got;
          // a complete answer and the way its connection ends may both be seen as the reason of a failure
          CHECK(first == got || (!o.response() && first.compare(0, 2, "OK") && first[0] != '1'), "segmentation", "the same bytes ended a call with '%s' and another with '%s'\n%s", first.substr(0, 300).c_str(), got.substr(0, 300).c_str(), ctx().c_str());
          break;
        }
        nontrivial();
        if (a.end || a.exp == Answer::ERROR || a.exp == Answer::SAME || a.exp == Answer::HTTP) c = fresh();
        else if (choose(st, 3) == 1) c = fresh();
      }
    }
  }, peer_ip(0));
  CHECK(join({cl}, 100000 * SEC), "call-hangs", "the answer and the end of the stream are there, but the call never returns\n%s", thread_dump().c_str());
  over = true;
}
