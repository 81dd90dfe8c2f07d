// Worlds with a proxy between client and server.
#include "lab.h"
#include <openssl/ssl.h>
#include <algorithm>
#include <arpa/inet.h>
#include <cstring>
#include <sys/socket.h>
using namespace lab;

namespace {
const uint32_t PXY = 0x0a000301; const int PPORT = 8080;      // 10.0.3.1

// How the proxy treats the next connections.
struct Plan {
  enum { GOOD, STATUS, CLOSE_EARLY, CLOSE_AFTER_REQUEST, PARTIAL_HEAD, GARBAGE, CLOSE_IN_BODY, RESET, SILENT, TARGET_DOWN, CUT_TUNNEL } kind = GOOD;
  int status = 0; size_t at = 0; std::string extra, reason = "OK", ver = "HTTP/1.0";
};
struct Proxy {
  Plan plan; bool over = false; std::string seen; int conns = 0, requests = 0, tls = 0;
  struct Call { std::string want, tok, auth; uint32_t ip = SRV; int port = PORT; }; std::map<uint32_t, Call> made;   // the call each host is making

  // Sends in the pieces the run draws.
  static bool put(Raw& r, const std::string& s, int st) { return choose(st, 2) ? r.send_cut(s, rnd_cuts(st, s.size(), 6), 20 * MS, st) : r.send(s); }
  static void end(Raw& r, int st) { fault(F_PEER_CLOSE); if (choose(st, 3) == 1) { fault(F_PEER_RESET); r.reset(); } else r.close(); }

  void relay(Raw& a, Raw& b, const Plan& p) {
    std::string x; size_t moved = 0;
    for (;;) {
      wait_until([&] { return over || tunnel_ready(a) || tunnel_ready(b); }, NEVER, "relay");
      if (over) return;
      for (int d = 0; d < 2; ++d) {
        Raw& f = d ? b : a; Raw& t = d ? a : b;
        if (f.recv_some(0)) {
          if (p.kind == Plan::CUT_TUNNEL && moved + f.buf.size() >= p.at) { t.send(f.buf.substr(0, p.at - moved)); return; }
          moved += f.buf.size();
          if (!t.send(f.buf)) return;
          f.buf.clear();
        } else if (f.eof || f.err) return;
      }
    }
  }
  static bool tunnel_ready(Raw& r);

  void serve(int fd, int st) {
    Raw r; r.fd = fd; { NoPreempt np; ++conns; }
    sockaddr_in pa; socklen_t pl = sizeof pa; memset(&pa, 0, sizeof pa); ::getpeername(fd, (sockaddr*)&pa, &pl); uint32_t from = ntohl(pa.sin_addr.s_addr);
    Plan p0; { NoPreempt np; p0 = plan; }
    if (p0.kind == Plan::CLOSE_EARLY) { end(r, st); return; }
    if (p0.kind == Plan::SILENT) { fault(F_PEER_STALL); wait_until([&] { return over; }, 1000 * SEC, "silent"); return; }
    for (int i = 0;; ++i) {
      Plan p; Call w;
      // head of the request
      while (r.buf.find("\r\n\r\n") == std::string::npos && r.recv_some(200 * SEC)) {}
      size_t he = r.buf.find("\r\n\r\n");
      if (he == std::string::npos) { r.close(); return; }
      { NoPreempt np; p = plan; w = made[from]; ++requests; }
      std::string line = r.buf.substr(0, r.buf.find("\r\n"));
      CHECK(line.substr(0, line.rfind(' ')) == w.want, "wrong-target", "the proxy was asked '%s' instead of '%s'", line.c_str(), w.want.c_str());
      bool connect = line.compare(0, 8, "CONNECT ") == 0;
      HttpMsg m;
      if (!connect) {
        m = r.read_http(200 * SEC);
        if (!m.ok) { r.close(); return; }
        CHECK(m.body.find(w.tok) != std::string::npos, "wrong-request", "the proxy got a request other than the one made");
        if (!w.auth.empty()) CHECK(m.h["authorization"] == "Basic " + b64(w.auth), "wrong-request", "credentials lost on the way through the proxy: '%s'", m.h["authorization"].c_str());
      } else r.buf.erase(0, he + 4);
      if (p.kind == Plan::CLOSE_AFTER_REQUEST) { end(r, st); return; }
      if (p.kind == Plan::RESET) { fault(F_PEER_RESET); r.reset(); return; }
      if (p.kind == Plan::SILENT) { fault(F_PEER_STALL); wait_until([&] { return over; }, 1000 * SEC, "silent"); return; }
      if (p.kind == Plan::GARBAGE) { fault(F_PEER_GARBAGE); put(r, "HTTP/1.0 abc\r\n" + rnd_bytes(st, choose(st, 60), std::string("x:\r\n \0z", 7)) + "\r\n\r\n", st); sim::sleep((Time)choose(st, 30) * MS); end(r, st); return; }
      if (p.kind == Plan::STATUS) {
        std::string body = "<html>refused</html>";
        put(r, p.ver + " " + std::to_string(p.status) + " " + p.reason + "\r\n" + p.extra + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body, st);
        sim::sleep((Time)choose(st, 30) * MS); r.close(); return;
      }
      Raw t;
      if (p.kind == Plan::TARGET_DOWN || !t.connect(w.ip, w.port, 100 * SEC)) { put(r, "HTTP/1.1 502 Bad Gateway\r\nContent-Length: 0\r\n\r\n", st); r.close(); return; }
      if (connect) {
        std::string h = p.ver + " 200 " + p.reason + "\r\n" + p.extra + "\r\n";
        if (p.kind == Plan::PARTIAL_HEAD) { put(r, h.substr(0, p.at % h.size()), st); end(r, st); return; }
        if (!put(r, h, st)) return;
        { NoPreempt np; ++tls; }
        relay(r, t, p); if (p.kind == Plan::CUT_TUNNEL) end(r, st); else r.close(); return;
      }
      // forwarded as an origin-form request
      std::string q = m.raw; size_t sp = q.find(' '), e = q.find(' ', sp + 1), path = q.find('/', sp + 8);
      q = "POST " + q.substr(path, e - path) + q.substr(e);
      if (!t.send(q)) { end(r, st); return; }
      HttpMsg a = t.read_http(1000 * SEC);
      if (!a.ok) { end(r, st); return; }
      size_t ah = a.raw.find("\r\n\r\n") + 4;
      if (p.kind == Plan::PARTIAL_HEAD) { put(r, a.raw.substr(0, p.at % ah), st); end(r, st); return; }
      if (p.kind == Plan::CLOSE_IN_BODY) { put(r, a.raw.substr(0, ah + p.at % (a.raw.size() - ah)), st); end(r, st); return; }
      if (!p.extra.empty()) a.raw.insert(a.raw.find("\r\n") + 2, p.extra);
      if (!put(r, a.raw, st)) return;
    }
  }
  void run(uint32_t ip = PXY) {
    Listener l; if (!l.open(ip, PPORT)) harness_error("proxy listener");
    while (!over) { int fd = l.accept(SEC); if (fd >= 0) { int st; { NoPreempt np; st = S_WORK + 20 + conns % 20; } spawn("pconn", [this, fd, st] { serve(fd, st); }, ip, true); } }
    l.close();
  }
};
bool Proxy::tunnel_ready(Raw& r) { return fd_readable(r.fd); }

Plan draw_plan(int st, bool https, bool timeouts)
{
  Plan p; static const int statuses[] = { 403, 407, 502, 503, 500, 404, 201, 204, 301 };
  int n = https ? 11 : 10; p.kind = (decltype(p.kind))(choose(st, 2) ? choose(st, n) : 0);
  if (p.kind == Plan::SILENT && !timeouts) p.kind = Plan::GOOD;
  if (p.kind == Plan::CLOSE_IN_BODY && https) p.kind = Plan::CUT_TUNNEL;
  p.status = statuses[choose(st, 9)]; p.at = choose(st, 2500);
  static const char* reasons[] = { "OK", "Connection established", "Connection Established", "Fine with me" }; p.reason = reasons[choose(st, 4)];
  static const char* extras[] = { "", "Via: 1.1 proxy\r\n", "Proxy-Agent: x/1.0\r\nX-Cache: MISS\r\n", "Date: Thu, 01 Jan 1970 00:00:00 GMT\r\nX-Long: zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\r\n" }; p.extra = extras[choose(st, 4)];
  p.ver = choose(st, 2) ? "HTTP/1.1" : "HTTP/1.0";
  return p;
}
}

WORLD(R20, calls, 2)
{
  swarm_sched(); swarm_net();
  knobs.fd_fresh = choose(S_CFG, 2);
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  bool https = choose(S_CFG, 2); int ncalls = range(S_CFG, 1, 5); bool named = choose(S_CFG, 2), allgood = choose(S_CFG, 3) == 1, timeouts = knobs.lat_max <= 100 * MS && choose(S_CFG, 2);
  if (choose(S_CFG, 2)) add_host("target.example", SRV);   // else only the proxy knows that name
  ServerNode sv((int)choose(S_CFG, 3), https); std::map<std::string, int> runs; Time busy = 0;
  sv.add("echo", [&](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(); runs[t]++;
    if (busy) sim::sleep(busy);
    if (p.at(1).get_int() == 1) throw ix::Fault(77, "F:" + t);
    Value v = Value(ix::Array()); v.push_back(Value("A:" + t)); v.push_back(p.at(2)); r = v;
  });
  sv.start();
  Proxy px; spawn("proxy", [&] { px.run(); }, PXY, true);
  wait_until([] { return has_listener(PXY, PPORT); }, 10 * SEC, "listener");
  uint64_t st0 = stale_ops();
  int cl = spawn("client", [&] {
    int st = S_WORK; std::string host = named ? "target.example" : "10.0.0.1", vhost = choose(st, 3) == 1 ? "virtual" : "", uri = choose(st, 3) == 1 ? "RPC" : choose(st, 3) == 1 ? "/a/b?c=d" : "/RPC";
    auto c = make_client(https, iqnet::Inet_addr(host, PORT), uri, vhost);
    c->set_proxy(iqnet::Inet_addr("10.0.3.1", PPORT));
    bool ka = choose(st, 2); c->set_keep_alive(ka); int to = -1; if (timeouts) c->set_timeout(to = range(st, 2, 6));
    if (choose(st, 3) == 1) { px.made[peer_ip(0)].auth = "user:pass word"; c->set_authinfo("user", "pass word"); }
    int opened = Plan::GOOD;
    for (int i = 0; i < ncalls; ++i) {
      if (chance(st, 150)) { ka = !ka; c->set_keep_alive(ka); }
      std::string t = "t" + std::to_string(i) + "!"; int mode = choose(st, 5) == 1; Value v = choose(st, 5) == 1 && knobs.lat_max == 0 ? Value(rnd_text(st, choose(st, 40000))) : rnd_value(st, 2, 100);
      Plan p = draw_plan(st, https, timeouts); if (allgood) p.kind = Plan::GOOD;
      std::string name = vhost.empty() ? host : vhost;
      { NoPreempt np; px.plan = p; Proxy::Call& m = px.made[peer_ip(0)]; m.tok = t; m.want = https ? "CONNECT " + host + ":" + std::to_string(PORT) : "POST http://" + name + ":" + std::to_string(PORT) + (uri[0] == '/' ? "" : "/") + uri; }
      Param_list pl; pl.push_back(Value(t)); pl.push_back(Value(mode)); pl.push_back(v);
      int req0 = px.requests, con0 = px.conns, tls0 = px.tls; bool kept = ka && open_tcp_host(peer_ip(0)) > 0; Time t0 = now();
      Out o = call(*c, "echo", pl);
      op("call %d tls %d keep-alive %d proxy kind %d status %d -> %s", i, https, ka, p.kind, p.status, o.str().substr(0, 60).c_str());
      bool reached = px.requests > req0;               // the proxy saw (the head of) this call
      bool through = px.tls > tls0 || (https && kept && px.conns == con0);   // this call used a tunnel
      if (o.kind == Out::FAULT) CHECK(mode == 1 && o.code == 77 && o.text == "F:" + t, "wrong-answer", "call %s got %s", t.c_str(), o.str().c_str());
      if (o.ok()) { NoPreempt np; CHECK(mode == 0 && o.value().is_array() && o.value().size() == 2 && o.value()[0].get_string() == "A:" + t && veq(o.value()[1], v), "wrong-answer", "call %s got %s", t.c_str(), o.str().substr(0, 300).c_str()); }
      if (o.response()) CHECK(runs[t] == 1, "executions", "call %s was answered but ran %d times", t.c_str(), runs[t]);
      CHECK(runs[t] <= 1, "executions", "call %s ran %d times", t.c_str(), runs[t]);
      if (!kept) opened = p.kind;                      // a tunnel keeps the behaviour it was opened with
      if (p.kind == Plan::GOOD && (!kept || !https || opened == Plan::GOOD)) CHECK(o.response(), "needless-failure", "proxy and server work but the call ended with %s", o.str().c_str());
      if (p.kind != Plan::GOOD && p.kind != Plan::CUT_TUNNEL && !(kept && (https || p.kind == Plan::CLOSE_EARLY))) CHECK(!o.response(), "accepted", "proxy failed (kind %d status %d) but the call ended with %s", p.kind, p.status, o.str().c_str());
      if (p.kind == Plan::STATUS && !kept) CHECK(o.kind == Out::HTTP && o.code == p.status, "wrong-error", "proxy refused with %d but the call ended with %s", p.status, o.str().c_str());
      if (p.kind == Plan::TARGET_DOWN && !kept) CHECK(o.kind == Out::HTTP && o.code == 502, "wrong-error", "proxy answered 502 but the call ended with %s", o.str().c_str());
      if (p.kind == Plan::SILENT && !kept) CHECK(o.kind == Out::TIMEOUT, "wrong-error", "silent proxy but the call ended with %s", o.str().c_str());
      if (o.kind == Out::TIMEOUT) CHECK(timeouts && now() - t0 >= (Time)to * SEC - 50 * MS, "early-timeout", "timeout reported after %.3f s (timeout %d)", (now() - t0) / 1e9, to);
      if (p.kind == Plan::SILENT) CHECK(now() - t0 <= 3 * (Time)to * SEC + 60 * SEC, "late", "call took %.3f s with timeout %d", (now() - t0) / 1e9, to);
      (void)reached; (void)through;
      if (!ka || !o.response()) CHECK(open_tcp_host(peer_ip(0)) == 0, "leak", "the call is over but descriptors are open: %s", fd_dump().c_str());
      nontrivial();
      if (chance(st, 300)) sim::sleep((Time)choose(st, 2000) * MS);
    }
  }, peer_ip(0));
  CHECK(join({cl}, 100000 * SEC), "call-hangs", "the call never returns (proxy kind %d)\n%s", px.plan.kind, thread_dump().c_str());
  px.over = true;
  for (auto& ci : conn_log()) if (ci.cip == peer_ip(0)) CHECK(ci.sip == PXY && ci.sport == PPORT, "bypassed", "client connected to %s:%d instead of the proxy", ipstr(ci.sip).c_str(), ci.sport);
  CHECK(stale_ops() == st0, "closed-descriptor", "operation on a closed descriptor: %s", stale_detail().c_str());
  sim::sleep(20 * SEC);
  sv.expect_alive("proxied calls");
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// Several clients with targets, paths and credentials of their own go through proxies at the same time, also by turns in one thread.
WORLD(R20, many, 1)
{
  swarm_sched(); swarm_net();
  const uint32_t SRV2 = 0x0a000002, PXY2 = 0x0a000302; bool two = choose(S_CFG, 2);
  bool ta = choose(S_CFG, 3) == 1, tb = choose(S_CFG, 3) == 1, apart = choose(S_CFG, 2); int port_b = apart && choose(S_CFG, 2) ? PORT : PORT + 1;
  add_host("one.example", SRV); add_host("two.example", apart ? SRV2 : SRV);
  ServerNode a((int)choose(S_CFG, 3), ta), b((int)choose(S_CFG, 3), tb, port_b); if (apart) b.host = SRV2;
  std::map<std::string, std::string> ran;
  auto m = [&](std::string who) { return [&ran, who](ix::Method*, const Param_list& p, Value& r) { std::string t = p.at(0).get_string(); { NoPreempt np; ran[t] += who; } yield("method"); r = Value(who + ":" + t); }; };
  a.add("who", m("a")); b.add("who", m("b")); a.start(); b.start();
  Proxy px, px2; spawn("proxy", [&] { px.run(); }, PXY, true); if (two) spawn("proxy2", [&] { px2.run(PXY2); }, PXY2, true);
  wait_until([&] { return has_listener(PXY, PPORT) && (!two || has_listener(PXY2, PPORT)); }, 10 * SEC, "listener");
  std::vector<int> ids; int ncl = range(S_CFG, 1, 3);
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k, nobj = range(st, 1, 3), n = range(st, 1, 5);
      struct One { std::unique_ptr<ix::Client_base> c; bool toa, direct; Proxy* px; Proxy::Call call; }; std::vector<One> v((size_t)nobj);
      for (int j = 0; j < nobj; ++j) {
        One& o = v[(size_t)j]; o.toa = choose(st, 2); o.direct = choose(st, 6) == 1; o.px = two && choose(st, 2) ? &px2 : &px;
        std::string host = o.toa ? "one.example" : "two.example", vhost = choose(st, 2) ? "v" + std::to_string(k) + std::to_string(j) : "", uri = "/p" + std::to_string(k) + std::to_string(j) + std::string(choose(st, 30), 'q');
        int port = o.toa ? PORT : port_b; bool tls = o.toa ? ta : tb;
        o.c = make_client(tls, iqnet::Inet_addr(host, port), uri, vhost); if (!o.direct) o.c->set_proxy(iqnet::Inet_addr(o.px == &px ? "10.0.3.1" : "10.0.3.2", PPORT)); o.c->set_keep_alive(choose(st, 2));
        o.call.ip = !o.toa && apart ? SRV2 : SRV; o.call.port = port;
        o.call.want = tls ? "CONNECT " + host + ":" + std::to_string(port) : "POST http://" + (vhost.empty() ? host : vhost) + ":" + std::to_string(port) + uri;
        if (choose(st, 2)) { o.call.auth = "u" + std::to_string(k) + ":p" + std::to_string(j); o.c->set_authinfo("u" + std::to_string(k), "p" + std::to_string(j)); }
      }
      for (int i = 0; i < n; ++i) {
        One& o = v[choose(st, (uint32_t)nobj)]; o.call.tok = "t" + std::to_string(k) + "." + std::to_string(i) + "!";
        { NoPreempt np; o.px->made[peer_ip(k)] = o.call; }
        Param_list p; p.push_back(Value(o.call.tok)); Out r = call(*o.c, "who", p); std::string w = o.toa ? "a" : "b";
        op("call %s to %s -> %s", o.call.tok.c_str(), w.c_str(), r.str().substr(0, 60).c_str());
        CHECK(r.ok() && r.value().get_string() == w + ":" + o.call.tok, "wrong-answer", "call %s for server %s ended with %s", o.call.tok.c_str(), w.c_str(), r.str().c_str());
        { NoPreempt np; CHECK(ran[o.call.tok] == w, "wrong-server", "call %s for server %s ran at '%s'", o.call.tok.c_str(), w.c_str(), ran[o.call.tok].c_str()); }
        nontrivial();
        if (chance(st, 300)) sim::sleep((Time)choose(st, 2000) * MS);
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "call-hangs", "%s", unfinished(ids).c_str());
  px.over = px2.over = true; sim::sleep(20 * SEC);
  a.expect_alive("proxied calls"); b.expect_alive("proxied calls");
  CHECK(a.stop() && b.stop(), "no-stop", "server does not stop");
  a.destroy(); b.destroy();
}
