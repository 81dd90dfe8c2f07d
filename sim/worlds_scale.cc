// Long series and large numbers: what holds for the first few has to hold for the hundredth as well.
#include "lab.h"
using namespace lab;

namespace {
std::string lower(std::string s) { for (char& c : s) c = (char)tolower(c); return s; }
void calm()     // one-byte segments and errors on every call would make these runs endless
{
  if (knobs.seg_kind == 1 || knobs.seg_kind == 2) knobs.seg_kind = 0;
  if (knobs.lat_max > MS) knobs.lat_max = MS;
}
}

// ---- R14: one connection, very many requests ----------------------------------------
WORLD(R14, series, 1)
{
  swarm_sched(); swarm_net(); draw_tls(6); calm();
  int pool = range(S_CFG, 0, 2), n = choose(S_CFG, 4) == 1 ? range(S_CFG, 300, 1200) : range(S_CFG, 30, 300); bool raw = choose(S_CFG, 2);
  Ledger lg; ServerNode sv(pool); lg.install(sv); sv.start();
  int id = spawn("peer", [&] {
    int st = S_WORK + 1; Raw c; std::unique_ptr<ix::Client_base> lc;
    if (raw) { if (!c.connect(SRV, PORT)) violation("connect", "cannot connect"); }
    else { lc = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); lc->set_keep_alive(true); }
    op("%d requests over one connection, by %s", n, raw ? "a raw peer" : "a client");
    for (int i = 0; i < n; ++i) {
      std::string t = "t" + std::to_string(i); int mode = chance(st, 20) ? 1 : chance(st, 20) ? 2 + (int)choose(st, 3000) : 0;
      std::string want = mode == 1 ? "F:" + t : "A:" + t + (mode > 1 ? std::string(mode, 'b') : ""), text;
      if (chance(st, 10)) sim::sleep((Time)choose(st, 500) * SEC);
      if (raw) {
        bool f; int code;
        if (!c.send(http_request(run_call(t, 0, mode), "", true))) violation("closed-early", "kept connection closed before request %d", i);
        HttpMsg m = c.read_http(1000 * SEC);
        CHECK(m.ok && m.status == 200 && parse_response(m.body, f, code, text), "incomplete", "request %d on one connection: answer not complete (%zu bytes, status %d, eof %d err %d)", i, m.raw.size(), m.status, c.eof, c.err);
        CHECK(m.h.count("connection") && lower(m.h["connection"]) == "keep-alive", "wrong-header", "request %d on one connection: answer says '%s'", i, m.h["connection"].c_str());
        CHECK(!c.eof && !c.err && c.buf.empty(), "closed-early", "connection asked to stay alive was %s after request %d", c.buf.empty() ? "closed" : "sent extra bytes", i);
      } else {
        Param_list p; p.push_back(Value(t)); p.push_back(Value(0)); p.push_back(Value(mode));
        Out o = call(*lc, "run", p); CHECK(o.response(), "failed", "call %d ended with %s", i, o.str().c_str());
        text = o.ok() ? o.value().get_string() : o.text;
      }
      CHECK(text == want && lg.ran(t) == 1, "wrong-answer", "request %d: answer '%s', run %d times", i, text.substr(0, 60).c_str(), lg.ran(t));
    }
    size_t k = 0; for (auto& ci : conn_log()) if (ci.cip == peer_ip(0)) ++k;
    CHECK(k == 1, "connections", "%zu connections for %d requests with keep-alive", k, n);
  }, peer_ip(0), raw);
  CHECK(join({id}, 100000000 * SEC), "hang", "peer waits forever: %s", unfinished({id}).c_str());
  sv.expect_alive("series");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R24: very many connections held open ---------------------------------------------
WORLD(R24, held, 1)
{
  swarm_sched(); swarm_net(); calm();
  int pool = range(S_CFG, 0, 3), held = choose(S_CFG, 4) == 1 ? range(S_CFG, 200, 600) : range(S_CFG, 20, 200), calls = range(S_CFG, 1, 3);
  ServerNode sv(pool); Ledger lg; lg.install(sv); sv.start();
  int holder = spawn("holder", [&] {
    int st = S_WORK + 1, used = 0; std::vector<std::unique_ptr<Raw>> cs; std::vector<int> how;
    auto one = [&](size_t k, const std::string& t) {
      bool f; int code; std::string text;
      if (!cs[k]->send(http_request(run_call(t), "", true))) violation("connection-lost", "connection %zu of %d lost", k, held);
      HttpMsg m = cs[k]->read_http(1000 * SEC);
      CHECK(m.ok && m.status == 200 && parse_response(m.body, f, code, text) && text == "A:" + t, "starved", "request %s on connection %zu of %d not answered (status %d, eof %d err %d)", t.c_str(), k, held, m.status, cs[k]->eof, cs[k]->err);
    };
    for (int k = 0; k < held; ++k) {
      cs.emplace_back(new Raw); how.push_back((int)choose(st, 3));
      if (!cs[k]->connect(SRV, PORT)) violation("connect", "connection %d of %d cannot be made", k, held);
      if (how[k] == 1) { one((size_t)k, "h" + std::to_string(k)); ++used; }      // used once and kept
      if (how[k] == 2) cs[k]->send("POST / HTT");                                  // in the middle of a request
    }
    op("%d connections held, %d of them after a request", held, used);
    // somebody new is served as if they were not there
    for (int i = 0; i < calls; ++i) {
      Raw c; bool f; int code; std::string text, t = "g" + std::to_string(i); Time b = now();
      if (!c.connect(SRV, PORT)) violation("connect", "cannot connect beside %d others", held);
      c.send(http_request(run_call(t)));
      HttpMsg m = c.read_http(1000 * SEC);
      CHECK(m.ok && m.status == 200 && parse_response(m.body, f, code, text) && text == "A:" + t, "starved", "request %s beside %d held connections not answered (status %d, eof %d err %d)", t.c_str(), held, m.status, c.eof, c.err);
      CHECK(now() - b <= 10 * SEC, "starved", "request %s took %.1f s beside %d idle connections", t.c_str(), (now() - b) / 1e9, held);
    }
    // and so are they
    for (int i = 0; i < 20; ++i) { size_t k = choose(st, (uint32_t)held); if (how[k] != 2) one(k, "n" + std::to_string(i)); }
    for (int k : {0, held - 1}) if (how[k] != 2) one((size_t)k, "e" + std::to_string(k));
  }, peer_ip(0), true);
  CHECK(join({holder}, 1000000 * SEC), "hang", "the peer waits forever: %s", unfinished({holder}).c_str());
  sv.expect_alive("held connections");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R06: served and stopped very many times ------------------------------------------
WORLD(R06, cycles, 1)
{
  swarm_sched(); swarm_net(); draw_tls(8); calm();
  int pool = range(S_CFG, 0, 2), cycles = range(S_CFG, 10, 80);
  ServerNode sv(pool); Ledger lg; lg.install(sv);
  op("%d cycles", cycles);
  for (int cy = 0; cy < cycles; ++cy) {
    bool early = choose(S_WORK, 6) == 1; if (early) sv.srv->set_exit_flag();
    sv.start(!early);
    if (early) CHECK(wait_until([&] { return !sv.running(); }, 100 * SEC, "serving with a stop request"), "no-stop", "cycle %d of %d: serving does not end although a stop was requested before", cy, cycles);
    else {
      int id = choose(S_WORK, 3) == 1 ? -1 : spawn("client" + std::to_string(cy), [&, cy] {
        auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_timeout(100); std::string t = "c" + std::to_string(cy);
        Param_list p; p.push_back(Value(t)); p.push_back(Value(0)); p.push_back(Value(0)); Out o = call(*c, "run", p);
        CHECK(o.ok() && o.value().get_string() == "A:" + t, "not-served", "cycle %d of %d: the call ended with %s", cy, cycles, o.str().c_str());
      }, peer_ip(0));
      if (id >= 0) CHECK(join({id}, 1000 * SEC), "not-served", "cycle %d of %d: the call never returns", cy, cycles);
      sv.expect_alive("serving");
      CHECK(sv.stop(100 * SEC), "no-stop", "cycle %d of %d: serving does not end after the stop request", cy, cycles);
    }
    CHECK(!sv.threw, "server-died", "cycle %d of %d: serving call threw '%s'", cy, cycles, sv.what.c_str());
    CHECK(!has_listener(SRV, PORT), "still-listening", "listening socket still open after cycle %d", cy);
  }
  nontrivial();
  sv.destroy();
}
