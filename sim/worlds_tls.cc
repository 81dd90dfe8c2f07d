// Worlds over TLS.
#include "lab.h"
#include <openssl/ssl.h>
using namespace lab;

// ---- R18 ---------------------------------------------------------------------------
WORLD(R18, calls, 2)
{
  swarm_sched(); swarm_net();
  bool faulty = choose(S_CFG, 3) == 1;
  if (faulty) swarm_faults(true, true, 4 * SEC);
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  int pool = range(S_CFG, 0, 3), ncl = range(S_CFG, 1, 3), ncalls = range(S_CFG, 1, 4);
  draw_together(pool); ServerNode sv(pool, true); std::map<std::string, int> runs;
  sv.add("echo", [&](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(); runs[t]++; log("run %s", t.c_str());
    int d = p.at(1).get_int(); if (d) sim::sleep((Time)d * MS);
    if (p.at(2).get_int() == 1) throw ix::Fault(77, "F:" + t);
    Value v = Value(ix::Array()); v.push_back(Value("A:" + t)); v.push_back(p.at(3));
    if (p.at(2).get_int() > 1) v.push_back(Value(std::string((size_t)p.at(2).get_int(), 'b')));
    r = v;
  });
  sv.start();
  std::vector<int> ids; std::map<std::string, bool> answered;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(true, iqnet::Inet_addr("10.0.0.1", PORT));
      bool ka = choose(st, 2); c->set_keep_alive(ka); int to = faulty ? range(st, 1, 5) : -1; c->set_timeout(to);
      for (int i = 0; i < ncalls; ++i) {
        if (chance(st, 100)) { ka = !ka; c->set_keep_alive(ka); }
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        int mode = choose(st, 5) == 1 ? 1 : choose(st, 4) == 1 ? 16384 * range(st, 1, 5) - 300 + (int)choose(st, 400) : 0;
        Value v = choose(st, 4) == 1 ? Value(rnd_text(st, choose(st, 70000))) : rnd_value(st, 2, 200);
        Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 4))); p.push_back(Value(mode)); p.push_back(v);
        Out o = call(*c, "echo", p);
        op("call %s keep-alive %d mode %d -> %s", t.c_str(), ka, mode, o.str().substr(0, 60).c_str());
        answered[t] = o.response();
        if (o.kind == Out::FAULT) CHECK(mode == 1 && o.code == 77 && o.text == "F:" + t, "foreign-answer", "call %s got %s", t.c_str(), o.str().substr(0, 200).c_str());
        else if (o.ok()) {
          NoPreempt np;
          CHECK(mode != 1 && o.value().is_array() && o.value().size() >= 2 && o.value()[0].get_string() == "A:" + t, "foreign-answer", "call %s got %s", t.c_str(), o.str().substr(0, 200).c_str());
          CHECK(veq(o.value()[1], v), "changed", "call %s: value %s came back as %s", t.c_str(), vstr(v).c_str(), vstr(o.value()[1]).c_str());
          CHECK((mode > 1) == (o.value().size() == 3) && (mode <= 1 || o.value()[2].get_string() == std::string((size_t)mode, 'b')), "changed", "call %s: long result damaged", t.c_str());
        } else {
          CHECK(faulty, "needless-failure", "no fault injected but call %s failed: %s", t.c_str(), o.str().c_str());
          probe("failed_call");
        }
        if (o.response()) CHECK(runs[t] == 1, "executions", "call %s answered, method ran %d times", t.c_str(), runs[t]);
        nontrivial();
        if (chance(st, 200)) sim::sleep((Time)choose(st, 1000) * MS);
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "call-hangs", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("calls");
  sim::sleep(20 * SEC);
  for (auto& r : runs) CHECK(r.second <= 1, "executions", "call %s ran the method %d times", r.first.c_str(), r.second);
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

namespace {
const uint32_t FAR = 0x0a000201;

// A peer that speaks TLS badly, or well for a while.
void tls_peer(int st, int n, Ledger& lg, const std::string& id)
{
  Raw r; if (!r.connect(SRV, PORT, 100 * SEC)) return;
  int how = (int)choose(st, 8); op("peer %s kind %d", id.c_str(), how);
  if (how == 0) { fault(F_PEER_GARBAGE); r.send(rnd_bytes(st, 1 + choose(st, 400), std::string("\x16\x03\x01\x00\x05zq\xff\x80", 9))); sim::sleep((Time)choose(st, 3000) * MS); if (choose(st, 2)) r.reset(); else r.close(); return; }
  if (how == 1) { fault(F_PEER_GARBAGE); r.send(http_request(run_call(id + ".plain"))); r.wait_close(5 * SEC); CHECK(!lg.ran(id + ".plain"), "plain-executed", "an unencrypted request on a TLS port was executed"); r.close(); return; }
  if (how == 2) { sim::sleep((Time)choose(st, 5000) * MS); fault(F_PEER_CLOSE); if (choose(st, 2)) r.reset(); else r.close(); return; }
  TlsRaw t(r, false, (int)choose(st, 4));
  if (how == 3) { t.cut_at = choose(st, 900); fault(F_PEER_STALL); }
  if (how == 4) t.flip_at = choose(st, 900);
  std::string tok = id + ".t" + std::to_string(n);
  if (t.handshake(20 * SEC)) {
    std::string q = http_request(run_call(tok, 0, choose(st, 3) == 1 ? 60000 : 0), "", choose(st, 2));
    if (how == 5) q.resize(choose(st, (uint32_t)q.size()));
    t.send(q);
    if (how == 6) { fault(F_PEER_CLOSE); if (choose(st, 2)) sim::sleep((Time)choose(st, 20) * MS); if (choose(st, 2)) r.reset(); else r.close(); return; }
    if (how == 7) {
      HttpMsg m = t.read_http(1000 * SEC);
      CHECK(m.ok && m.status == 200 && m.body.find("A:" + tok) != std::string::npos, "no-answer", "proper request over TLS was not answered (status %d, closed %d, error %d)", m.status, t.closed, r.err);
    } else { std::string b; t.recv(b, (Time)choose(st, 1000) * MS); }
  } else if (how == 7) violation("no-answer", "handshake of a proper TLS client failed");
  sim::sleep((Time)choose(st, 3000) * MS);
  if (choose(st, 2)) r.reset(); else r.close();
}
}

// Peers that fail, abort or garble the handshake or the exchange, beside proper clients.
WORLD(R18, hostile, 2)
{
  swarm_sched(); swarm_net();
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  int pool = range(S_CFG, 0, 2), nbad = range(S_CFG, 1, 4), ncl = range(S_CFG, 1, 2);
  size_t fd0 = open_fds_lib();
  { ServerNode sv(pool, true); Ledger lg; lg.install(sv); sv.start();
  size_t base = open_tcp_lib();
  std::vector<int> ids;
  for (int k = 0; k < nbad; ++k)
    ids.push_back(spawn("bad" + std::to_string(k), [&, k] { int st = S_WORK + 10 + k, n = range(st, 1, 4); for (int i = 0; i < n; ++i) tls_peer(st, i, lg, "b" + std::to_string(k)); }, peer_ip(40 + k), true));
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; auto c = make_client(true, iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < 4; ++i) {
        std::string t = "c" + std::to_string(k) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 5))); p.push_back(Value(0));
        Out o = call(*c, "run", p); op("call %s -> %s", t.c_str(), o.str().substr(0, 60).c_str());
        CHECK(o.ok() && o.value().get_string() == "A:" + t, "disturbed", "well-behaved client: call %s ended with %s", t.c_str(), o.str().c_str());
        CHECK(lg.ran(t) == 1, "executions", "call %s ran %d times", t.c_str(), lg.ran(t));
        sim::sleep((Time)choose(st, 1500) * MS);
      }
      nontrivial();
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "%s", unfinished(ids).c_str());
  sim::sleep(30 * SEC);
  sv.expect_alive("hostile TLS peers");
  uint64_t s0 = out->steps; sim::sleep(20 * SEC);
  CHECK(out->steps - s0 < 3000, "spinning", "server burns CPU while nothing happens: %lu steps in 20 quiet seconds", (unsigned long)(out->steps - s0));
  CHECK(open_tcp_lib() == base, "leak", "all peers are gone but %zu instead of %zu sockets are open: %s", open_tcp_lib(), base, fd_dump().c_str());
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy(); }
  CHECK(open_fds_lib() == fd0, "leak", "server destroyed but descriptors are open: %s", fd_dump().c_str());
}

// A server that breaks off or garbles TLS: the call ends with an exception, and never with a wrong or partial answer.
WORLD(R18, badserver, 2)
{
  swarm_sched(); swarm_net(); draw_role(false);
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  struct Mode { int how = 0; std::string tok; bool trouble = false; } mode; bool over = false;
  spawn("far", [&] {
    int st = S_WORK + 9; Listener l; l.open(FAR, PORT);
    while (!over) {
      int fd = l.accept(SEC);
      if (fd < 0) continue;
      Raw r; r.fd = fd; int how = mode.how;
      auto end = [&] { fault(F_PEER_CLOSE); if (choose(st, 3) == 1) r.reset(); else r.close(); };
      if (how == 1) { fault(F_PEER_GARBAGE); r.send(rnd_bytes(st, 1 + choose(st, 400), std::string("\x16\x03\x03\x00\x05zq\xff\x02", 9))); if (choose(st, 2)) sim::sleep((Time)choose(st, 20) * MS); end(); continue; }
      if (how == 2) { if (choose(st, 2)) sim::sleep((Time)choose(st, 20) * MS); end(); continue; }
      TlsRaw t(r, true, 3);
      if (how == 3) t.cut_at = choose(st, 1500);
      if (how == 4) t.flip_at = choose(st, 1500);
      if (!t.handshake(100 * SEC)) { end(); continue; }
      for (int i = 0;; ++i) {
        HttpMsg m = t.read_http(30 * SEC);
        if (!m.ok) break;
        how = mode.how;
        std::string answer = http_response(xml_ok("<string>A:" + mode.tok + std::string(how == 9 ? 40000 : 0, 'z') + "</string>"), "connection: keep-alive\r\n");
        if (how == 5) { fault(F_PEER_CLOSE); SSL_shutdown(t.ssl); t.flush(); if (choose(st, 2)) sim::sleep((Time)choose(st, 50) * MS); break; }   // orderly end without an answer
        if (how == 6) { fault(F_PEER_CLOSE); t.send(answer.substr(0, choose(st, (uint32_t)answer.size()))); if (choose(st, 2)) { SSL_shutdown(t.ssl); t.flush(); } break; }
        if (how == 7) { t.flip_at = t.wire + choose(st, (uint32_t)answer.size()); t.send(answer); t.flip_at = (size_t)-1; break; }
        if (!t.send(answer)) break;
        if (how == 8) { SSL_shutdown(t.ssl); t.flush(); break; }
      }
      end();
    }
  }, FAR, true);
  wait_until([] { return has_listener(FAR, PORT); }, 10 * SEC, "listener");
  int cl = spawn("client", [&] {
    int st = S_WORK; auto c = make_client(true, iqnet::Inet_addr("10.0.2.1", PORT)); int n = range(st, 1, 5); bool ka = choose(st, 2), kept = false; c->set_keep_alive(ka);
    for (int i = 0; i < n; ++i) {
      { NoPreempt np; mode.how = (int)choose(st, 10); mode.tok = "x" + std::to_string(i); }
      if (kept && mode.how <= 4) mode.how = 0;
      int how = mode.how;
      Param_list p; p.push_back(Value(i));
      Out o = call(*c, "m", p);
      op("call %d server kind %d keep-alive %d -> %s", i, how, ka, o.str().substr(0, 80).c_str());
      std::string want = "A:" + mode.tok + std::string(how == 9 ? 40000 : 0, 'z');
      if (o.response()) CHECK(o.ok() && o.value().get_string() == want, "wrong-answer", "server kind %d, call ended with %s", how, o.str().c_str());
      if (how == 0 || how == 9 || (how == 8 && o.ok())) CHECK(o.ok(), "answer-lost", "proper TLS server (kind %d), call ended with %s", how, o.str().c_str());
      if (how == 1 || how == 2 || how == 5 || how == 6 || how == 7) CHECK(!o.response(), "accepted-broken", "broken off answer (kind %d) was accepted: %s", how, o.str().c_str());
      CHECK(o.kind != Out::TIMEOUT, "timeout", "timeout without a timeout set");
      nontrivial();
      kept = ka && o.ok() && how != 8;
      if (how == 8 || !o.ok() || choose(st, 3) == 1) { c = make_client(true, iqnet::Inet_addr("10.0.2.1", PORT)); ka = choose(st, 2); c->set_keep_alive(ka); kept = false; }
    }
  }, peer_ip(0));
  CHECK(join({cl}, 100000 * SEC), "call-hangs", "the server has ended the connection but the call never returns (server kind %d)\n%s", mode.how, thread_dump().c_str());
  over = true;
}

// Certificate verification on either side.
WORLD(R18, verify, 1)
{
  swarm_sched(); swarm_net();
  int vc = (int)choose(S_CFG, 3); int ra = (int)choose(S_CFG, 3), rb = (int)choose(S_CFG, 3); bool ac = ra == 1, vs = choose(S_CFG, 2), as = rb == 1;   // a verifier that throws has not accepted
  tls_setup(vs, rb, vc, ra);
  ServerNode sv((int)choose(S_CFG, 3), true); Ledger lg; lg.install(sv); sv.start();
  std::vector<int> ids; int ncl = range(S_CFG, 0, 2), nraw = range(S_CFG, 1, 3);
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {           // presents the server's own certificate when asked
      int st = S_WORK + 1 + k; auto c = make_client(true, iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < 2; ++i) {
        std::string t = "c" + std::to_string(k) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t)); p.push_back(Value(0)); p.push_back(Value(0));
        Out o = call(*c, "run", p); op("call %s -> %s", t.c_str(), o.str().substr(0, 60).c_str());
        bool good = (!vs || as) && (!vc || ac);
        if (good) CHECK(o.ok(), "rejected", "accepted certificates but call ended with %s", o.str().c_str());
        else {
          CHECK(!o.response(), "unverified-answer", "rejected certificate (server checked %d accepted %d, client checked %d accepted %d), but the call ended with %s", vs, as, vc, ac, o.str().c_str());
          CHECK(!lg.ran(t), "unverified-executed", "rejected certificate but the method ran (server checked %d accepted %d, client checked %d accepted %d)", vs, as, vc, ac);
        }
        nontrivial();
      }
    }, peer_ip(k)));
  for (int k = 0; k < nraw; ++k)
    ids.push_back(spawn("raw" + std::to_string(k), [&, k] {
      int st = S_WORK + 20 + k; Raw r; if (!r.connect(SRV, PORT, 100 * SEC)) return;
      int cert = (int)choose(st, 3); TlsRaw t(r, false, cert); std::string tok = "r" + std::to_string(k);
      bool good = vc == 0 || (cert ? ac : vc == 1);
      t.handshake(100 * SEC);
      t.send(http_request(run_call(tok)));
      HttpMsg m = t.read_http(100 * SEC);
      op("raw peer cert %d -> %d", cert, m.status);
      if (good) CHECK(m.ok && m.status == 200, "rejected", "client certificate %d is acceptable (mode %d) but the request was not answered", cert, vc);
      else { CHECK(!m.ok, "unverified-answer", "client certificate %d is not acceptable (mode %d accepted %d) but the request was answered", cert, vc, ac); CHECK(!lg.ran(tok), "unverified-executed", "client certificate %d is not acceptable but the method ran", cert); }
      nontrivial();
    }, peer_ip(40 + k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "%s", unfinished(ids).c_str());
  sim::sleep(5 * SEC);
  sv.expect_alive("verification");
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// Verifiers that decide by the certificate they are shown, also for peers that send the issuer of their certificate along:
// a peer gets through exactly when its own certificate and each other one it sends are accepted, and a refused peer learns nothing.
WORLD(R18, pinned, 1)
{
  swarm_sched(); swarm_net();
  static const char* who[] = {"", "client.sim", "other.sim", "server.sim", "chain.sim"};
  auto pick = [] { int k = (int)choose(S_CFG, 5); return k < 3 ? 1 : k == 3 ? 0 : 2; };
  std::map<std::string, int> vs, vc; for (const char* n : {"client.sim", "other.sim", "server.sim", "chain.sim", "root.sim"}) { vs[n] = pick(); vc[n] = pick(); }
  auto fine = [&](std::map<std::string, int>& v, int c) { return v[who[c]] == 1 && (c != 4 || v["root.sim"] == 1); };
  int mode = (int)choose(S_CFG, 3); tls_setup_names(vs, mode, vc);
  ServerNode sv((int)choose(S_CFG, 3), true); Ledger lg; lg.install(sv); sv.start();
  std::set<std::string> got; bool over = false; std::vector<int> ids, far;
  for (int c = 1; c <= 4; ++c)
    far.push_back(spawn("far" + std::to_string(c), [&, c] {
      Listener l; l.open(FAR, PORT + c);
      while (!over) {
        int fd = l.accept(SEC); if (fd < 0) continue;
        Raw r; r.fd = fd; TlsRaw t(r, true, c); if (!t.handshake(100 * SEC)) { r.close(); continue; }
        for (;;) {
          HttpMsg m = t.read_http(100 * SEC); if (!m.ok) break;
          { NoPreempt np; size_t a = m.body.find("tok:"), b = m.body.find(';', a); if (a != std::string::npos && b != std::string::npos) got.insert(m.body.substr(a, b - a + 1)); }
          if (!t.send(http_response(xml_ok("<string>A</string>"), "connection: keep-alive\r\n"))) break;
        }
        r.close();
      }
    }, FAR, true));
  wait_until([] { for (int c = 1; c <= 4; ++c) if (!has_listener(FAR, PORT + c)) return false; return true; }, 10 * SEC, "listeners");
  int ncl = range(S_CFG, 1, 3), nraw = range(S_CFG, 1, 4);
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k, n = range(st, 1, 4);
      for (int i = 0; i < n; ++i) {
        int c = (int)choose(st, 5); bool own = c == 0, good;             // 0: the library's server, which may ask for the client's certificate in turn
        auto x = make_client(true, own ? iqnet::Inet_addr("10.0.0.1", PORT) : iqnet::Inet_addr("10.0.2.1", PORT + c)); x->set_keep_alive(choose(st, 2));
        good = own ? fine(vs, 3) && (!mode || fine(vc, 3)) : fine(vs, c);
        for (int j = 0; j < 2; ++j) {
          std::string t = "tok:" + std::to_string(k) + "." + std::to_string(i) + "." + std::to_string(j) + ";";
          Param_list p; p.push_back(Value(t)); if (own) { p.push_back(Value(0)); p.push_back(Value(0)); }
          Out o = call(*x, "run", p); op("call %s to %s -> %s", t.c_str(), own ? "server" : who[c], o.str().substr(0, 60).c_str());
          if (good) CHECK(o.ok(), "rejected", "accepted certificates but call to %s ended with %s", own ? "the server" : who[c], o.str().c_str());
          else {
            CHECK(!o.response(), "unverified-answer", "certificate of %s is refused but the call ended with %s", own ? "one side" : who[c], o.str().c_str());
            CHECK(!lg.ran(t), "unverified-executed", "a certificate is refused but the method ran");
            CHECK(!got.count(t), "request-shown", "the certificate of %s is refused but the request was sent to it", who[c]);
          }
          nontrivial();
        }
      }
    }, peer_ip(k)));
  for (int k = 0; k < nraw; ++k)
    ids.push_back(spawn("raw" + std::to_string(k), [&, k] {
      int st = S_WORK + 20 + k; Raw r; if (!r.connect(SRV, PORT, 100 * SEC)) return;
      int c = (int)choose(st, 5); TlsRaw t(r, false, c); std::string tok = "r" + std::to_string(k);
      bool good = !mode || (c ? fine(vc, c) : mode == 1);
      t.handshake(100 * SEC); t.send(http_request(run_call(tok)));
      HttpMsg m = t.read_http(100 * SEC); op("raw peer %s -> %d", who[c], m.status);
      if (good) CHECK(m.ok && m.status == 200, "rejected", "client certificate '%s' is acceptable (mode %d) but the request was not answered", who[c], mode);
      else { CHECK(!m.ok, "unverified-answer", "client certificate '%s' is refused (mode %d) but the request was answered", who[c], mode); CHECK(!lg.ran(tok), "unverified-executed", "client certificate '%s' is refused but the method ran", who[c]); }
      nontrivial();
    }, peer_ip(40 + k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "%s", unfinished(ids).c_str());
  over = true; CHECK(join(far, 100000 * SEC), "hang", "scripted servers: %s", unfinished(far).c_str());
  sv.expect_alive("verification");
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}
