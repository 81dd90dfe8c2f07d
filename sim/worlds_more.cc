// Fair service under load; client settings changed between calls.
#include "lab.h"
using namespace lab;

// ---- R24 ------------------------------------------------------------------------
// Clients that never pause beside one that makes a few calls.  How long a call may take is derived
// from the length of the methods and the number of clients; the crowd goes on for much longer.
WORLD(R24, crowd, 34)
{
  swarm_sched(); swarm_net(); draw_tls(5);
  if (knobs.lat_max > 5 * MS) knobs.lat_max = 5 * MS;
  if (knobs.seg_kind == 1 || knobs.seg_kind == 2) knobs.lat_max = 0;
  int pool = range(S_CFG, 0, 3), crowd = pool + range(S_CFG, 1, 3), calls = range(S_CFG, 1, 3);
  int ms = 50 + 50 * (int)choose(S_CFG, 5); bool keep = choose(S_CFG, 3) != 1, newcomers = choose(S_CFG, 3) == 1;
  ServerNode sv(pool); Ledger lg; lg.install(sv); sv.start();
  bool over = false; std::vector<int> ids;
  // one at a time at worst, everybody else before us, per round trip (TLS has several)
  Time fair = 5 * SEC + (Time)(crowd + 2) * ms * MS * 4, until = 0;
  auto going = [&] { return !over && now() < until; };
  until = now() + 2 * fair * (Time)calls;
  op("crowd of %d against %d workers, methods of %d ms, keep-alive %d, newcomers %d", crowd, pool, ms, keep, newcomers);
  for (int k = 0; k < crowd; ++k)
    ids.push_back(spawn("crowd" + std::to_string(k), [&, k] {
      if (choose(S_WORK + 2 + k, 2)) sim::sleep((Time)choose(S_WORK + 2 + k, 50) * MS);
      std::unique_ptr<ix::Client_base> c;
      for (int i = 0; going(); ++i) {
        if (!c || newcomers) { c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(keep); }
        std::string t = "c" + std::to_string(k) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t)); p.push_back(Value(ms)); p.push_back(Value(0));
        Out o = call(*c, "run", p);
        CHECK(o.ok() && o.value().get_string() == "A:" + t, "failed", "call %s ended with %s", t.c_str(), o.str().c_str());
      }
    }, peer_ip(k + 1)));
  int me = spawn("guest", [&] {
    int st = S_WORK + 1;
    auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
    for (int i = 0; i < calls; ++i) {
      sim::sleep((Time)(1 + choose(st, 20)) * ms * MS / 4);
      std::string t = "g." + std::to_string(i);
      Param_list p; p.push_back(Value(t)); p.push_back(Value(ms)); p.push_back(Value(0));
      Time b = now(); uint64_t ran = lg.total;
      Out o = call(*c, "run", p);
      op("call %s took %.3f s, %lu others were run meanwhile: %s", t.c_str(), (now() - b) / 1e9, (unsigned long)(lg.total - ran), o.str().c_str());
      CHECK(o.ok() && o.value().get_string() == "A:" + t, "failed", "call %s ended with %s", t.c_str(), o.str().c_str());
      CHECK(now() - b <= fair, "starved", "call %s took %.1f s while %lu requests of %d others were run", t.c_str(), (now() - b) / 1e9, (unsigned long)(lg.total - ran), crowd);
    }
    over = true;
  }, peer_ip(0));
  ids.push_back(me);
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("crowd");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}
// Peers that always have something for the server to read or accept.  Judged by how often the server
// learns that a descriptor is ready before it turns to it.
WORLD(R24, stream, 17)
{
  swarm_sched(); swarm_net(false); draw_tls(6);
  static const int sk[] = {0, 4, 5}; knobs.seg_kind = sk[choose(S_CFG, 3)]; if (knobs.mss < 4096) knobs.mss = 4096;
  knobs.sndbuf = std::max<size_t>(knobs.sndbuf, 65536); knobs.rcvbuf = std::max<size_t>(knobs.rcvbuf, 65536);
  knobs.edge_gap = 0; if (knobs.short_recv_permille > 100) knobs.short_recv_permille = 100;
  int pool = range(S_CFG, 0, 2), n = range(S_CFG, 1, 3); bool before = choose(S_CFG, 2);
  ServerNode sv(pool); Ledger lg; lg.install(sv); sv.start();
  const size_t cap = 12u << 20;
  bool over = false; int streaming = 0, ended = 0; std::vector<int> ids;
  Raw early; if (!before) { if (!early.connect(SRV, PORT)) violation("connect", "cannot connect"); sim::sleep(MS); }
  for (int k = 0; k < n; ++k) {
    int how = (int)choose(S_WORK, 4);
    ids.push_back(spawn("stream" + std::to_string(k), [&, k, how] {
      if (how == 3) {            // connections without end
        size_t m = 0;
        for (++streaming; !over && m < 400; ++m) { Raw c; if (!c.connect_plain(SRV, PORT)) break; if (m % 3) c.reset(); else c.close(); }
        if (!over) ++ended;
        return;
      }
      Raw c; if (!c.connect(SRV, PORT)) violation("connect", "cannot connect");
      c.send("POST /RPC HTTP/1.1\r\nHost: h\r\nContent-Type: text/xml\r\nContent-Length: 900000000\r\n\r\n");
      ++streaming;
      std::string chunk(how == 0 ? 65536 : how == 1 ? 200000 : 4096, 'x'); size_t sent = 0;
      while (!over && sent < cap / (how == 2 ? 8 : 1)) { if (!c.send(chunk)) break; sent += chunk.size(); }
      if (!over) ++ended;
      wait_until([&] { return over; }, NEVER, "end of the run");
    }, peer_ip(k + 1), true));
  }
  int me = spawn("guest", [&] {
    wait_until([&] { return streaming == n; }, 1000 * SEC, "streams");
    for (int i = 0; i < 2; ++i) {
      Raw c2; Raw& c = i == 0 && !before ? early : c2;
      if (&c == &c2 && !c.connect(SRV, PORT)) violation("connect", "cannot connect");
      std::string t = "g" + std::to_string(i);
      c.send(http_request(run_call(t), "", false));
      HttpMsg m = c.read_http(1000 * SEC); bool f; int code; std::string text;
      op("request %s answered: %d, streams over: %d of %d", t.c_str(), m.ok, ended, n);
      CHECK(m.ok && parse_response(m.body, f, code, text) && text == "A:" + t, "not-answered", "request %s not answered", t.c_str());
      CHECK(lg.ran(t) == 1, "executions", "request %s ran %d times", t.c_str(), lg.ran(t));
      CHECK(most_ignored() < 100, "starved", "with %d busy peers a descriptor was found ready %d times before it was served", n, most_ignored());
    }
    over = true;
  }, peer_ip(0), true);
  ids.push_back(me);
  CHECK(join(ids, 100000 * SEC), "hang", "peers never served: %s", unfinished(ids).c_str());
  sv.expect_alive("streams");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R25 ------------------------------------------------------------------------
namespace {
struct Known: ix::Auth_Plugin_base {
  bool do_authenticate(const std::string& u, const std::string& p) const { return p == "pw:" + u; }
  bool do_authenticate_anonymous() const { return true; }
};
}
WORLD(R25, settings, 1)
{
  swarm_sched(); swarm_net(); draw_tls(3);
  int ncl = range(S_CFG, 1, 2), ncalls = range(S_CFG, 2, 8);
  ServerNode sv(4); Known kn; sv.srv->set_auth_plugin(kn);
  sv.add("show", [&](ix::Method* m, const Param_list& p, Value& r) {
    std::string s = p.at(0).get_string() + "|" + m->authname() + "|";
    for (auto i = m->xheaders().begin(); i != m->xheaders().end(); ++i) s += i->first + "=" + i->second + ";";
    if (int d = p.at(1).get_int()) sim::sleep(d * MS);
    r = s;
  });
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
      int to = -1; bool keep = false, right = true; std::string user; std::map<std::string, std::string> xh;
      bool cached = false;                            // a kept connection is there and usable
      auto conns = [&] { size_t n = 0; for (auto& ci : conn_log()) if (ci.cip == peer_ip(k)) ++n; return n; };
      for (int i = 0; i < ncalls; ++i) {
        int what = (int)choose(st, 6);                // what changes before this call; several may
        for (int j = 0; j < 2; ++j) {
          if (what == 1) { to = choose(st, 3) ? range(st, 1, 6) : -1; c->set_timeout(to); }
          if (what == 2) { keep = !keep; c->set_keep_alive(keep); if (!keep) cached = false; }
          if (what == 3) { user = choose(st, 4) ? "u" + std::to_string(choose(st, 5)) : ""; right = choose(st, 4) != 1; c->set_authinfo(user, (right ? "pw:" : "no:") + user); }
          if (what == 4) { xh.clear(); int n = (int)choose(st, 3); for (int q = 0; q < n; ++q) xh["x-" + std::string(1, (char)('a' + choose(st, 4)))] = "v" + std::to_string(i) + std::to_string(q); ix::XHeaders h; h = xh; c->set_xheaders(h); }
          if (j == 0) what = (int)choose(st, 6);
        }
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        int d = choose(st, 2) ? (int)choose(st, 8) * 1000 + 500 : 0;
        Param_list p; p.push_back(Value(t)); p.push_back(Value(d));
        size_t before = conns(); Time b = now();
        Out o = call(*c, "show", p);
        size_t made = conns() - before; Time took = now() - b;
        op("client %d: %s with timeout %d keep-alive %d user '%s' (%s) %zu headers, method of %d ms, kept connection %d -> %s after %.3f s, %zu new connections", k, t.c_str(), to, keep, user.c_str(), right ? "right" : "wrong", xh.size(), d, cached, o.str().c_str(), took / 1e9, made);
        bool denied = !user.empty() && !right, late = !denied && to > 0 && d > to * 1000;
        CHECK(made == (cached ? 0u : 1u), "connections", "call %s made %zu connections, keep-alive was %s and a kept connection was %s", t.c_str(), made, keep ? "on" : "off", cached ? "there" : "not there");
        if (denied) CHECK(o.kind == Out::HTTP && o.code == 401, "credentials", "call %s with wrong credentials ended with %s", t.c_str(), o.str().c_str());
        else if (late) {
          CHECK(o.kind == Out::TIMEOUT, "timeout", "call %s with timeout %d s to a method of %d ms ended with %s", t.c_str(), to, d, o.str().c_str());
          CHECK(took >= (Time)to * SEC - 2 * MS && took <= (Time)d * MS + 10 * SEC, "timeout", "call %s with timeout %d s ended after %.3f s", t.c_str(), to, took / 1e9);
        } else {
          CHECK(o.ok(), "failed", "call %s with timeout %d to a method of %d ms ended with %s", t.c_str(), to, d, o.str().c_str());
          std::string want = t + "|" + user + "|"; for (auto& x : xh) want += x.first + "=" + x.second + ";";
          CHECK(o.value().get_string() == want, "settings", "the server saw '%s', in force was '%s'", o.value().get_string().c_str(), want.c_str());
        }
        cached = keep && o.ok();
        size_t mine = open_tcp_host(peer_ip(k));
        CHECK(mine == (cached ? 1u : 0u), "connections", "%zu connections open after call %s, keep-alive is %s", mine, t.c_str(), keep ? "on" : "off");
        if (late) sim::sleep(10 * SEC);
        else if (choose(st, 3) == 1) sim::sleep((Time)choose(st, 3000) * MS);
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("settings");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}
