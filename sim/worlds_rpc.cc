// Whole-call worlds: real clients against a real server.
#include "lab.h"
using namespace lab;

// ---- R01 ------------------------------------------------------------------------
// Every call carries a unique token; the method records which tokens it ran and answers with
// the token.  History check: per call own answer, executions <= 1, == 1 when answered.
namespace {
struct Tokens {
  std::map<std::string, int> runs;
  std::map<std::string, std::string> answer;     // token -> what the server produced for it
};
}
WORLD(R01, calls, 3)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  bool faulty = choose(S_CFG, 3) != 0;
  if (faulty) {
    static const int rp[] = {0, 3, 20, 100}; knobs.rst_permille = rp[choose(S_CFG, 4)];
    static const int sp[] = {0, 5, 30, 150}; knobs.stall_permille = sp[choose(S_CFG, 4)]; knobs.stall_max = 4 * SEC;
    if (choose(S_CFG, 3) == 1) knobs.eintr_permille = 100;
  }
  if (knobs.seg_kind == 1 || knobs.seg_kind == 2) { knobs.rst_permille /= 10; knobs.stall_permille /= 10; }
  int pool = range(S_CFG, 0, 4), ncl = range(S_CFG, 1, 4), ncalls = range(S_CFG, 1, 5);
  Time slow_max = choose(S_CFG, 2) ? 3 * SEC : 2 * MS;
  Tokens tk;
  ServerNode sv(pool);
  sv.add("echo", [&tk, slow_max](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string();
    tk.runs[t]++; log("run %s", t.c_str());
    int d = p.at(1).get_int();
    if (d) sim::sleep((Time)d * slow_max / 100);
    if (p.at(2).get_int() == 1) { tk.answer[t] = "F:" + t; throw ix::Fault(77, "F:" + t); }
    tk.answer[t] = "A:" + t; r = "A:" + t + p.at(3).get_string();
  });
  sv.start();
  std::vector<int> ids;
  struct Hist { std::string tok; Out o; bool fault; std::string pad; };
  std::vector<Hist> hist;
  for (int k = 0; k < ncl; ++k) {
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
      bool ka = choose(st, 2); c->set_keep_alive(ka);
      int to = range(st, 0, 3); c->set_timeout(to ? to : -1);
      op("client %d keep-alive %d timeout %d", k, ka, to);
      for (int i = 0; i < ncalls; ++i) {
        if (chance(st, 80)) { ka = !ka; c->set_keep_alive(ka); }
        Hist h; h.tok = "t" + std::to_string(k) + "." + std::to_string(i);
        h.fault = chance(st, 150); h.pad = rnd_bytes(st, chance(st, 150) ? choose(st, 90000) : choose(st, 40), "pqrs");
        Param_list p; p.push_back(Value(h.tok)); p.push_back(Value((int)(chance(st, 400) ? choose(st, 101) : 0))); p.push_back(Value(h.fault ? 1 : 0)); p.push_back(Value(h.pad));
        h.o = call(*c, "echo", p);
        op("call %s -> %s", h.tok.c_str(), h.o.str().substr(0, 60).c_str());
        hist.push_back(h);
        if (h.o.response()) {
          std::string got = h.o.ok() ? (h.o.value().is_string() ? h.o.value().get_string() : vstr(h.o.value())) : h.o.text;
          std::string want = h.fault ? "F:" + h.tok : "A:" + h.tok + h.pad;
          CHECK(got == want && h.o.ok() == !h.fault, "foreign-answer", "call %s got '%s', its own answer is '%s'", h.tok.c_str(), got.substr(0, 100).c_str(), want.substr(0, 100).c_str());
          CHECK(tk.runs[h.tok] == 1, "executions", "call %s answered, method ran %d times", h.tok.c_str(), tk.runs[h.tok]);
        } else probe("failed_call");
        if (chance(st, 200)) sim::sleep((Time)choose(st, 1000) * 4 * MS);
      }
    }, peer_ip(k)));
  }
  CHECK(join(ids, 100000 * SEC), "call-hangs", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("calls");
  // let requests still under way finish, then stop
  sim::sleep(20 * SEC);
  for (auto& h : hist) {
    int n = tk.runs[h.tok];
    CHECK(n <= 1, "executions", "one call %s ran the method %d times", h.tok.c_str(), n);
    CHECK(!h.o.response() || n == 1, "executions", "call %s answered, method ran %d times", h.tok.c_str(), n);
    if (!faulty && !h.o.response() && h.o.kind != Out::TIMEOUT) violation("needless-failure", "no fault injected but call %s failed: %s", h.tok.c_str(), h.o.str().c_str());
  }
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop\n%s", thread_dump().c_str());
  sv.destroy();
}

// ---- R02 ------------------------------------------------------------------------
WORLD(R02, payload, 16)
{
  swarm_sched(); swarm_net(); draw_tls(6);
  bool big = choose(S_CFG, 3) != 0;                       // sizes around the 64 KiB buffers
  if (big) {
    if (knobs.seg_kind == 1 || knobs.seg_kind == 2) knobs.seg_kind = (int)choose(S_CFG, 2) ? 0 : 4;
    if (choose(S_CFG, 2)) { knobs.seg_kind = 0; knobs.short_recv_permille = knobs.short_send_permille = 0; }
    knobs.sndbuf = std::max<size_t>(knobs.sndbuf, 16384); knobs.rcvbuf = choose(S_CFG, 3) ? 262144 : 65536;
    if (choose(S_CFG, 2)) knobs.sndbuf = 262144;
  }
  size_t ms = big ? 2000 : 600;
  if (choose(S_CFG, 4) == 1) { Value::omit_string_tag_in_responses(true); no_blank_text = true; }   // untagged white space is not a value
  int pool = range(S_CFG, 0, 3), ncl = range(S_CFG, 1, big ? 2 : 3), ncalls = range(S_CFG, 1, big ? 6 : 4);
  std::map<std::string, std::shared_ptr<Value>> want_in, give; std::map<std::string, int> ran;
  draw_together(pool); ServerNode sv(pool);
  sv.add("swap", [&](ix::Method*, const Param_list& p, Value& r) {
    NoPreempt np;
    std::string t = p.at(0).get_string();
    CHECK(want_in.count(t), "payload", "method called with an unknown token '%s'", t.substr(0, 100).c_str());
    ran[t]++;
    Value all = Value(ix::Array()); for (size_t i = 1; i < p.size(); ++i) all.push_back(p[i]);
    CHECK(veq(all, *want_in[t]), "params-changed", "method sees %s, caller passed %s", vstr(all).c_str(), vstr(*want_in[t]).c_str());
    r = *give[t];
  });
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      long rpad = 0, ppad = 0;
      long aim_in = big ? (long)(1 + choose(st, 2)) * 65536 + range(st, -2, 2) : 0, aim_out = big ? (long)(1 + choose(st, 3)) * 65536 + range(st, -2, 2) : 0;
      Value fixed_p = rnd_value(st, 2, ms), fixed_r = rnd_value(st, 2, ms);
      for (int i = 0; i < ncalls; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t));
        Value in = Value(ix::Array());
        if (big) { in.push_back(fixed_p); in.push_back(Value(std::string((size_t)ppad, 'p') + ".")); }
        else if (chance(st, 50)) { int n = (int)choose(st, choose(st, 4) == 1 ? 3000 : 300); for (int j = 0; j < n; ++j) in.push_back(j % 7 ? Value(j) : Value("p" + std::to_string(j))); }
        else { int n = (int)choose(st, 4); for (int j = 0; j < n; ++j) in.push_back(rnd_value(st, 3, ms)); }
        auto res = std::make_shared<Value>(Value(0));
        if (big) { *res = Value(ix::Array()); res->push_back(fixed_r); res->push_back(Value(std::string((size_t)rpad, 'r') + ".")); }
        else *res = rnd_value(st, 3, ms);
        for (size_t j = 0; j < in.size(); ++j) p.push_back(in[(int)j]);
        { NoPreempt np; want_in[t] = std::make_shared<Value>(in); give[t] = res; }
        uint64_t b_in = 0, b_out = 0; for (auto& ci : conn_log()) if (ci.cip == peer_ip(k)) { b_in += ci.to_server; b_out += ci.to_client; }
        Out o = call(*c, "swap", p);
        uint64_t a_in = 0, a_out = 0; for (auto& ci : conn_log()) if (ci.cip == peer_ip(k)) { a_in += ci.to_server; a_out += ci.to_client; }
        op("call %s: %lu bytes out, %lu bytes back -> %s", t.c_str(), (unsigned long)(a_in - b_in), (unsigned long)(a_out - b_out), o.str().substr(0, 40).c_str());
        CHECK(o.ok(), "failed", "call %s (%lu bytes out, %lu back) ended with %s", t.c_str(), (unsigned long)(a_in - b_in), (unsigned long)(a_out - b_out), o.str().c_str());
        { NoPreempt np; CHECK(veq(o.value(), *res), "result-changed", "caller got %s, method returned %s", vstr(o.value()).c_str(), vstr(*res).c_str()); }
        CHECK(ran[t] == 1, "executions", "call %s ran %d times", t.c_str(), ran[t]);
        if (big) {
          // steer the next call's sizes to the aimed ones
          long din = aim_in - (long)(a_in - b_in), dout = aim_out - (long)(a_out - b_out);
          if (!din) { probe("request_at_boundary"); aim_in = (long)(1 + choose(st, 2)) * 65536 + range(st, -2, 2); } 
          if (!dout) { probe("answer_at_boundary"); aim_out = (long)(1 + choose(st, 3)) * 65536 + range(st, -2, 2); }
          ppad = std::max(0l, ppad + aim_in - (long)(a_in - b_in)); rpad = std::max(0l, rpad + aim_out - (long)(a_out - b_out));
        }
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("payload");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// Values of several megabytes or with very many members.
WORLD(R02, huge, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  knobs.seg_kind = choose(S_CFG, 2) ? 4 : 0; knobs.mss = 65536; knobs.short_recv_permille = knobs.short_send_permille = choose(S_CFG, 2) ? 100 : 0; knobs.edge_gap = 0; knobs.lat_max = 0;
  knobs.sndbuf = 1 << 20; knobs.rcvbuf = choose(S_CFG, 2) ? 1 << 20 : 262144;
  auto draw = [](int st) -> Value {
    size_t n = 200000 + choose(st, 1 << (18 + choose(st, 4))); int k = (int)choose(st, 4);
    if (k == 0) { std::string s(n, 'v'); for (int i = 0; i < 20; ++i) s[choose(st, (uint32_t)n)] = "<&>\n aZ\"'"[choose(st, 9)]; return Value(s); }
    if (k == 1) { std::string s(n, 0); uint64_t x = 1 + choose(st, 1000); for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)(x >> 33); } std::unique_ptr<ix::Binary_data> b(ix::Binary_data::from_data(s)); return Value(*b); }
    Value v = k == 2 ? Value(ix::Array()) : Value(ix::Struct()); int m = (int)(n / 60);
    for (int i = 0; i < m; ++i) { Value e = i % 3 ? Value(i * 7) : Value("e" + std::to_string(i)); if (k == 2) v.push_back(e); else v.insert("m" + std::to_string(i), e); }
    return v; };
  int pool = range(S_CFG, 0, 2); std::map<std::string, std::shared_ptr<Value>> in, back;
  ServerNode sv(pool);
  sv.add("swap", [&](ix::Method*, const Param_list& p, Value& r) {
    NoPreempt np; std::string t = p.at(0).get_string();
    CHECK(in.count(t) && veq(p.at(1), *in[t]), "params-changed", "method sees other parameters (%s...) than the caller passed", vstr(p.at(1), 100).c_str());
    r = *back[t];
  });
  sv.start();
  std::vector<int> ids; int ncl = range(S_CFG, 1, 2);
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2)); if (choose(st, 2)) c->set_timeout(100);
      for (int i = 0; i < 2; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i); int which = range(st, 1, 3); Param_list p; p.push_back(Value(t));
        { NoPreempt np; in[t] = std::make_shared<Value>(which & 1 ? draw(st) : Value(1)); back[t] = std::make_shared<Value>(which & 2 ? draw(st) : Value(2)); p.push_back(*in[t]); }
        Out o = call(*c, "swap", p); op("call %s (%d) -> %s", t.c_str(), which, o.str().substr(0, 40).c_str());
        CHECK(o.ok(), "failed", "call %s with large values ended with %s", t.c_str(), o.str().substr(0, 300).c_str());
        { NoPreempt np; CHECK(veq(o.value(), *back[t]), "result-changed", "caller got another value (%s...) than the method returned", vstr(o.value(), 100).c_str()); }
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("huge"); nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// Values as other implementations write them, to the server and to the client.
WORLD(R02, foreign, 16)
{
  swarm_sched(); swarm_net(); draw_tls(6);
  int ncalls = range(S_CFG, 1, 5), pool = range(S_CFG, 0, 2);
  Value want = Value(0); std::string tok; int ran = 0;
  ServerNode sv(pool);
  sv.add("take", [&](ix::Method*, const Param_list& p, Value& r) {
    NoPreempt np; ++ran;
    Value all = Value(ix::Array()); for (size_t i = 0; i < p.size(); ++i) all.push_back(p[i]);
    CHECK(veq(all, want), "params-changed", "method sees %s, the caller wrote %s", vstr(all).c_str(), vstr(want).c_str());
    r = tok;
  });
  sv.start();
  int peer = spawn("peer", [&] {
    int st = S_WORK + 1; Raw c;
    for (int i = 0; i < ncalls; ++i) {
      if (c.fd < 0) { c = Raw(); if (!c.connect(SRV, PORT)) violation("connect", "cannot connect"); }
      Value all = Value(ix::Array()); int n = (int)choose(st, 4); for (int j = 0; j < n; ++j) all.push_back(rnd_value(st, 3, 300));
      std::string x = xml_decl(st) + "<methodCall>" + xml_gap(st) + "<methodName>take</methodName>" + xml_gap(st);
      if (n || choose(st, 2)) { x += n || choose(st, 2) ? "<params>" + xml_gap(st) : "<params/>"; if (x.back() != '>' || x.substr(x.size() - 2) != "/>") { for (int j = 0; j < n; ++j) x += "<param>" + xml_gap(st) + xml_value(st, all[j]) + xml_gap(st) + "</param>" + xml_gap(st); x += "</params>"; } }
      x += xml_gap(st) + "</methodCall>" + (choose(st, 3) == 1 ? "\r\n" : "");
      { NoPreempt np; want = all; tok = "k" + std::to_string(i); ran = 0; }
      bool keep = choose(st, 2); std::string rq = http_request(x, "", keep);
      op("peer sends %zu bytes: %s", x.size(), vstr(all, 100).c_str());
      if (!c.send_cut(rq, rnd_cuts(st, rq.size(), 3), 0, st)) violation("connection-lost", "connection lost before the request was sent");
      HttpMsg m = c.read_http(1000 * SEC); bool f; int code; std::string text;
      CHECK(m.ok && m.status == 200 && parse_response(m.body, f, code, text) && !f && text == tok && ran == 1, "failed", "'%s' ran %d times, answered with status %d '%s'", x.substr(0, 600).c_str(), ran, m.status, m.body.substr(0, 300).c_str());
      if (!keep) c.close();
    }
  }, peer_ip(0), true);
  // the other way round: a scripted server, a real client
  const uint32_t FAR = 0x0a000201; Value give = Value(0); bool over = false;
  int far = spawn("far", [&] {
    int st = S_WORK + 2; Listener l; if (!l.open(FAR, PORT)) harness_error("far server cannot listen");
    while (!over) {
      int fd = l.accept(10 * SEC); if (fd < 0) continue;
      Raw r; if (!r.accepted(fd)) continue;
      for (;;) {
        HttpMsg m = r.read_http(1000 * SEC); if (!m.ok) break;
        std::string v; { NoPreempt np; v = xml_value(st, give); }
        std::string x = xml_decl(st) + "<methodResponse>" + xml_gap(st) + "<params>" + xml_gap(st) + "<param>" + xml_gap(st) + v + xml_gap(st) + "</param>" + xml_gap(st) + "</params>" + xml_gap(st) + "</methodResponse>" + (choose(st, 3) == 1 ? "\n" : "");
        if (!r.send(http_response(x, "connection: keep-alive\r\n"))) break;
      }
    }
  }, FAR, true);
  wait_until([] { return has_listener(FAR, PORT); }, 10 * SEC, "listener");
  int cl = spawn("client", [&] {
    int st = S_WORK + 3; auto c = make_client(iqnet::Inet_addr("10.0.2.1", PORT)); c->set_keep_alive(choose(st, 2));
    for (int i = 0; i < ncalls; ++i) {
      Value v = rnd_value(st, 3, 300); { NoPreempt np; give = v; }
      Param_list p; p.push_back(Value(i));
      Out o = call(*c, "any", p);
      op("client gets %s", vstr(v, 100).c_str());
      CHECK(o.ok(), "failed", "the server sent %s, the call ended with %s", vstr(v).c_str(), o.str().c_str());
      { NoPreempt np; CHECK(veq(o.value(), v), "result-changed", "caller got %s, the server sent %s", vstr(o.value()).c_str(), vstr(v).c_str()); }
    }
  }, peer_ip(1));
  CHECK(join({peer, cl}, 100000 * SEC), "hang", "never over: %s", unfinished({peer, cl}).c_str());
  over = true; join({far}, 10000 * SEC);
  sv.expect_alive("foreign");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R05 ------------------------------------------------------------------------
namespace {
struct NotAnException { int x; };
struct Odd: std::exception { std::string s; explicit Odd(const std::string& t): s(t) {} ~Odd() throw() {} const char* what() const throw() { return s.c_str(); } };
// N calls that only return when all N are running at the same time
struct Meeting {
  int need = 0, in = 0, gen = 0;
  void install(ServerNode& sv) {
    sv.add("meet", [this](ix::Method*, const Param_list& p, Value& r) {
      int g = gen; if (++in >= need) { in = 0; ++gen; }
      bool ok = wait_until([this, g] { return gen != g; }, 200 * SEC, "meeting");
      if (!ok) violation("not-parallel", "only %d of %d requests run at the same time\n%s", in, need, thread_dump().c_str());
      r = "met:" + p.at(0).get_string();
    });
  }
  // n clients call it at once
  std::vector<int> go(int n, const char* tag) {
    need = n; in = 0; std::vector<int> ids;
    for (int k = 0; k < n; ++k) ids.push_back(spawn(std::string(tag) + std::to_string(k), [k] {
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
      std::string t = std::to_string(k); Param_list p; p.push_back(Value(t));
      Out o = call(*c, "meet", p);
      CHECK(o.ok() && o.value().get_string() == "met:" + t, "meeting-failed", "call ended with %s", o.str().c_str());
    }, peer_ip(100 + k)));
    return ids;
  }
};
}
WORLD(R05, outcomes, 1)
{
  swarm_sched(); swarm_net(); draw_tls(5);
  int pool = range(S_CFG, 0, 4), ncl = range(S_CFG, 1, 4), ncalls = range(S_CFG, 1, 6);
  draw_together(pool); ServerNode sv(pool); Meeting mt; mt.install(sv);
  std::map<std::string, int> ran;
  sv.add("act", [&](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(), text = p.at(3).get_string(); int k = p.at(1).get_int(), code = p.at(2).get_int();
    ran[t]++; int d = p.at(4).get_int(); if (d) sim::sleep(d * MS);
    switch (k) {
    case 0: r = "V:" + t + text; return;
    case 1: throw ix::Fault(code, text);
    case 2: throw ix::Exception(text, code);
    case 3: throw std::runtime_error(text);
    case 4: throw Odd(text);
    case 5: throw NotAnException();
    case 6: throw 42;
    case 10: r = std::string("\x01\xff") + text; return;                   // text that XML cannot carry
    case 11: throw std::runtime_error(std::string("\xc3(") + text);
    case 7: { Value& bad = r; r = Value(3); bad.get_string(); return; }    // wrong use of a value
    default: r = p.at(5); return;
    }
  });
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < ncalls; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        int kind = (int)choose(st, 10), code = choose(st, 3) ? (int)choose(st, 2000) - 1000 : odd_code(st);
        std::string text = "x" + rnd_text(st, choose(st, 60)) + "y"; if (chance(st, 50)) text += std::string(choose(st, 70000), 'z') + "y";
        if (chance(st, 100)) text = std::string(choose(st, 3), ' ');
        if (kind == 7 && choose(st, 2)) kind = 10 + (int)choose(st, 2);
        Param_list p; p.push_back(Value(t)); p.push_back(Value(kind)); p.push_back(Value(code)); p.push_back(Value(text)); p.push_back(Value((int)choose(st, 4)));
        if (kind == 8) p.push_back(Value(t));
        op("call %s kind %d code %d", t.c_str(), kind, code);
        bool unknown = kind == 9 && choose(st, 2);
        Out o = call(*c, unknown ? "nosuch" + std::to_string(choose(st, 3)) : "act", p);
        std::string s = o.str();
        if (unknown) { CHECK(o.kind == Out::FAULT && o.code == -32601, "unknown-method", "unknown method: %s", s.c_str()); CHECK(!ran[t], "executions", "unknown method ran something"); continue; }
        CHECK(ran[t] == 1, "executions", "call %s kind %d ran %d times (%s)", t.c_str(), kind, ran[t], s.c_str());
        switch (kind) {
        case 0: CHECK(o.ok() && o.value().get_string() == "V:" + t + text, "wrong-value", "call %s: %s", t.c_str(), s.c_str()); break;
        case 1: CHECK(o.kind == Out::FAULT && o.code == code && o.text == text, "wrong-fault", "fault %d '%s' arrived as %s", code, text.c_str(), s.c_str()); break;
        case 2: case 3: case 4: CHECK(o.kind == Out::FAULT && o.text == text, "wrong-fault", "exception kind %d '%s' arrived as %s", kind, text.c_str(), s.c_str()); break;
        case 10: case 11: break;               // no statement about this call itself
        case 5: case 6: case 7: case 9: CHECK(o.kind == Out::FAULT, "wrong-fault", "exception kind %d arrived as %s", kind, s.c_str()); break;
        default: CHECK(o.ok() && o.value().get_string() == t, "wrong-value", "call %s: %s", t.c_str(), s.c_str()); break;
        }
      }
    }, peer_ip(k)));
  // kind 9 with the known method misses a parameter: out-of-range access in the method
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("outcomes");
  if (pool) { auto m = mt.go(pool, "meet"); CHECK(join(m, 1000 * SEC), "worker-lost", "after exceptions the pool of %d does not run %d calls at once: %s", pool, pool, unfinished(m).c_str()); }
  sv.expect_alive("outcomes");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R06 ------------------------------------------------------------------------
WORLD(R06, stop, 30)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  int pool = range(S_CFG, 0, 3), cycles = range(S_CFG, 1, 3), ncl = range(S_CFG, 0, 2);
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 100;
  ServerNode sv(pool); bool ended = false;
  Ledger lg; lg.install(sv);
  int made = 0, returns = 0;                               // stop requests begun, serving calls returned
  auto stop = [&](const char* who) { op("stop by %s", who); ++made; sv.srv->set_exit_flag(); };
  auto returned = [&] {
    ++returns;
    CHECK(!sv.threw, "server-died", "serving call threw '%s'", sv.what.c_str());
    CHECK(returns <= made, "server-stopped", "serving call returned %d times for %d stop requests", returns, made);
    CHECK(!has_listener(SRV, PORT), "still-listening", "listening socket still open after the serving call returned");
  };
  sv.add("stop", [&](ix::Method* m, const Param_list& p, Value& r) {
    int d = p.at(0).get_int(); if (d) sim::sleep(d * MS);
    op("stop by method"); ++made; m->server().set_exit_flag(); r = 1;
  });
  // traffic going on all the time, its calls may fail around a stop
  std::vector<int> traffic;
  for (int k = 0; k < ncl; ++k)
    traffic.push_back(spawn("traffic" + std::to_string(k), [&, k] {
      int st = S_WORK + 20 + k; auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2)); c->set_timeout(5);
      for (int i = 0; !ended && i < 12; ++i) {
        std::string t = "b" + std::to_string(k) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 5))); p.push_back(Value(0));
        Out o = call(*c, "run", p);
        if (o.response()) CHECK(o.ok() && o.value().get_string() == "A:" + t, "wrong-answer", "call %s: %s", t.c_str(), o.str().c_str());
        sim::sleep((Time)choose(st, 40) * MS);
      }
    }, peer_ip(20 + k)));
  // peers that hold connections in every state and do nothing more
  int nidle = choose(S_CFG, 2) ? range(S_CFG, 1, 3) : 0; std::vector<int> idle;
  for (int k = 0; k < nidle; ++k)
    idle.push_back(spawn("idle" + std::to_string(k), [&, k] {
      int st = S_WORK + 30 + k, n = 0;
      while (!ended && n++ < 6) {
        Raw c; if (!has_listener(SRV, PORT) || !c.connect(SRV, PORT, 5 * SEC)) { sim::sleep((Time)(1 + choose(st, 40)) * MS); continue; }
        std::string t = "i" + std::to_string(k) + "." + std::to_string(n), rq = http_request(run_call(t, (int)choose(st, 80)), choose(st, 4) == 1 ? "expect: 100-continue\r\n" : "", choose(st, 2));
        int how = (int)choose(st, 4); if (how == 1) rq.resize(choose(st, (uint32_t)rq.size())); if (how == 2) rq = "";
        c.send(rq); fault(F_PEER_STALL);
        if (how == 3) c.recv_some(SEC);
        wait_until([&] { return ended; }, (Time)choose(st, 200) * MS, "idling");
        if (choose(st, 3) == 1) c.reset(); else c.close();
      }
    }, peer_ip(40 + k), true));
  for (int cy = 0; cy < cycles; ++cy) {
    bool early = choose(S_WORK, 4) == 1; int nst = (int)choose(S_WORK, 4);
    std::vector<int> ids;
    if (early) stop("driver before serving");
    sv.start(choose(S_WORK, 2));
    bool sure = early;
    for (int k = 0; k < nst; ++k) {
      int how = (int)choose(S_WORK, 3), delay = choose(S_WORK, 3) ? (int)choose(S_WORK, 60) : 0;
      if (how == 2)
        ids.push_back(spawn("stopcall" + std::to_string(k), [&, k, delay] {
          int st = S_WORK + 1 + k; sim::sleep((Time)delay * MS);
          auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_timeout(3);
          Param_list p; p.push_back(Value((int)choose(st, 3))); call(*c, "stop", p);
        }, peer_ip(k)));
      else {
        sure = true;
        ids.push_back(spawn("stopper" + std::to_string(k), [&, delay] { if (delay) sim::sleep((Time)delay * MS); stop("thread"); }));
      }
    }
    if (!sure) { sim::sleep((Time)choose(S_WORK, 100) * MS); if (!finished(sv.tid)) stop("driver"); }
    // every thread that asks for a stop has done so within 60 ms
    CHECK(wait_until([&] { return finished(sv.tid); }, 300 * SEC, "serving call"), "no-stop", "serving call has not returned 300 s after a stop request (%d requests so far, cycle %d)\n%s", made, cy, thread_dump().c_str());
    returned();
    CHECK(join(ids, 1000 * SEC), "hang", "stop requests hang: %s", unfinished(ids).c_str());
    nontrivial();
  }
  ended = true;
  CHECK(join(traffic, 10000 * SEC), "hang", "%s", unfinished(traffic).c_str());
  join(idle, 10000 * SEC);
  sim::sleep(SEC);
  // stop requests left over, or made by methods whose requests were still waiting, end further serving calls
  for (;;) { sv.start(); sim::sleep(200 * MS); if (!finished(sv.tid)) break; returned(); }
  int fin = spawn("final", [&] {
    auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
    for (int i = 0; i < 2; ++i) {
      std::string t = "f" + std::to_string(i); Param_list p; p.push_back(Value(t)); p.push_back(Value(0)); p.push_back(Value(0));
      Out o = call(*c, "run", p);
      CHECK(o.ok() && o.value().get_string() == "A:" + t, "not-serving", "after %d stop cycles a call ended with %s", cycles, o.str().c_str());
    }
  }, peer_ip(50));
  CHECK(join({fin}, 1000 * SEC), "not-serving", "after %d stop cycles a call hangs\n%s", cycles, thread_dump().c_str());
  sv.expect_alive("after restart");
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R07 ------------------------------------------------------------------------
WORLD(R07, destroy, 5)
{
  swarm_sched(); swarm_net(false); draw_tls(6);
  if (choose(S_CFG, 4) == 1) knobs.thread_stall_permille = 5;
  int n = range(S_CFG, 1, 4), kind = (int)choose(S_CFG, 4);
  if (kind == 0) {               // no server at all: workers starting or idle
    auto* f = new ix::Pool_executor_factory(n);
    if (choose(S_WORK, 3) == 1) { int m = range(S_WORK, 1, 2); f->add_threads(m); n += m; }
    if (choose(S_WORK, 2)) sim::sleep((Time)choose(S_WORK, 200) * 10 * US);
    op("pool of %d destroyed while starting or idle", n);
    bool done = false; int id = spawn("destroyer", [&] { delete f; done = true; });
    CHECK(wait_until([&] { return done; }, 1000 * SEC, "pool destruction"), "destroy-hangs", "destroying an idle pool of %d never finishes\n%s", n, thread_dump().c_str());
    CHECK(threads_alive_lib() == 0, "threads-left", "%d worker threads alive after destruction", (int)threads_alive_lib());
    join({id}, SEC); nontrivial(); return;
  }
  ServerNode sv(n); Ledger lg; lg.install(sv);
  std::set<std::string> begun, finishedm; bool gone = false, release = false;
  int dmax = choose(S_CFG, 2) ? 40 : 2;
  sv.add("job", [&](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(); log("job %s", t.c_str());
    CHECK(!gone, "ran-after", "request %s was run after the pool was destroyed", t.c_str());
    CHECK(begun.insert(t).second, "ran-twice", "request %s was run twice", t.c_str());
    if (p.at(1).get_int() < 0) wait_until([&] { return release; }, 5000 * SEC, "holding");
    else sim::sleep((Time)p.at(1).get_int() * MS);
    CHECK(!gone, "not-finished-first", "destruction returned while request %s was running", t.c_str());
    finishedm.insert(t); r = t;
  });
  sv.start();
  int jobs = range(S_WORK, 1, 8);
  std::vector<int> ids;
  for (int k = 0; k < jobs; ++k) {
    int d = kind == 3 && k == 0 ? -1 : (int)choose(S_WORK, dmax), when = (int)choose(S_WORK, 20);
    ids.push_back(spawn("peer" + std::to_string(k), [&, k, d, when] {
      if (d >= 0 && when) sim::sleep((Time)when * 500 * US);
      Raw c; if (!c.connect(SRV, PORT)) return;
      c.send(http_request(xml_call("job", xml_str("j" + std::to_string(k)) + xml_int(d)), "", false));
      c.wait_close(50 * SEC);
    }, peer_ip(k), true));
  }
  bool done = false;
  auto destroy = [&] { sv.ef.reset(); gone = true; done = true; };
  if (kind == 3) {               // destruction while requests keep arriving: one method holds the pool until serving ended
    wait_until([&] { return begun.count("j0") > 0; }, 100 * SEC, "holder");
    if (!begun.count("j0")) violation("not-run", "request never run\n%s", thread_dump().c_str());
    sim::sleep((Time)choose(S_WORK, 20) * 500 * US);
    op("pool of %d destroyed while %d requests arrive", n, jobs);
    int id = spawn("destroyer", destroy);
    sim::sleep((Time)choose(S_WORK, 20) * 500 * US);
    CHECK(!gone, "not-finished-first", "destruction returned while a method was running");
    CHECK(sv.stop(), "no-stop", "server does not stop\n%s", thread_dump().c_str());
    sim::sleep((Time)choose(S_WORK, 4) * 500 * US);
    release = true;
    CHECK(wait_until([&] { return done; }, 2000 * SEC, "pool destruction"), "destroy-hangs", "destroying a pool of %d with requests arriving never finishes\n%s", n, thread_dump().c_str());
    join({id}, SEC);
  } else {                       // serving ended, methods may be running and requests queued
    sim::sleep((Time)choose(S_WORK, 30) * 500 * US);
    CHECK(sv.stop(), "no-stop", "server does not stop\n%s", thread_dump().c_str());
    if (choose(S_WORK, 2)) sim::sleep((Time)choose(S_WORK, 40) * 500 * US);
    op("pool of %d destroyed with %zu of %d requests begun, %zu finished", n, begun.size(), jobs, finishedm.size());
    int id = spawn("destroyer", destroy);
    CHECK(wait_until([&] { return done; }, 2000 * SEC, "pool destruction"), "destroy-hangs", "destroying a pool of %d never finishes\n%s", n, thread_dump().c_str());
    join({id}, SEC);
  }
  CHECK(threads_alive_lib() == 0, "threads-left", "%d worker threads alive after destruction", (int)threads_alive_lib());
  CHECK(begun == finishedm, "not-finished-first", "%zu methods begun, %zu finished at destruction", begun.size(), finishedm.size());
  sim::sleep(SEC);
  join(ids, 100 * SEC);
  nontrivial();
  sv.srv.reset();
}

// The system refuses to start some of the threads.
WORLD(R07, starved, 1)
{
  swarm_sched(); swarm_net(false);
  int n = range(S_CFG, 1, 5), errs = (int)pick(S_CFG, std::vector<int>{100, 300, 500});
  ix::Pool_executor_factory* f = nullptr; bool done = false; std::string what;
  knobs.thread_err_permille = errs;
  int id = spawn("owner", [&] { try { f = new ix::Pool_executor_factory(n); } catch (const std::exception& e) { what = e.what(); } done = true; });
  CHECK(wait_until([&] { return done; }, 1000 * SEC, "pool creation"), "create-hangs", "creating a pool of %d never finishes\n%s", n, thread_dump().c_str());
  join({id}, SEC); knobs.thread_err_permille = 0;
  if (!f) {
    op("pool of %d not created: %s", n, what.c_str()); probe("pool_failed"); nontrivial();
    wait_until([&] { return threads_alive_lib() == 0; }, 10 * SEC, "threads of a pool that was not made");
    CHECK(threads_alive_lib() == 0, "threads-left", "a pool of %d could not be created (%s), %d of its threads are left", n, what.c_str(), (int)threads_alive_lib());
    sim::sleep(SEC); return;
  }
  if (choose(S_WORK, 2)) sim::sleep((Time)choose(S_WORK, 200) * 10 * US);
  int tries = range(S_WORK, 0, 3);
  for (int k = 0; k < tries; ++k) {
    knobs.thread_err_permille = errs;
    try { f->add_threads((unsigned)range(S_WORK, 1, 3)); op("threads added"); } catch (const std::exception& e) { op("threads not added: %s", e.what()); probe("add_failed"); nontrivial(); }
    knobs.thread_err_permille = 0;
    if (choose(S_WORK, 2)) sim::sleep((Time)choose(S_WORK, 200) * 10 * US);
  }
  done = false; id = spawn("destroyer", [&] { delete f; done = true; });
  CHECK(wait_until([&] { return done; }, 1000 * SEC, "pool destruction"), "destroy-hangs", "destroying a pool that could not start all threads never finishes\n%s", thread_dump().c_str());
  CHECK(threads_alive_lib() == 0, "threads-left", "%d worker threads alive after destruction", (int)threads_alive_lib());
  join({id}, SEC); nontrivial();
}

// ---- R08 ------------------------------------------------------------------------
WORLD(R08, pool, 1)
{
  swarm_sched(); swarm_net(); draw_tls(6);
  int n = range(S_CFG, 1, 4), phases = range(S_CFG, 1, 4), most = 6;
  bool big = choose(S_CFG, 40) == 1; if (big) { n = range(S_CFG, 5, 40); phases = range(S_CFG, 1, 2); most = n + 8; if (knobs.seg_kind == 1 || knobs.seg_kind == 2) knobs.seg_kind = 0; }
  if (choose(S_CFG, 4) == 1) knobs.thread_stall_permille = 5;
  ServerNode sv(n); Ledger lg; lg.install(sv); Meeting mt; mt.install(sv);
  sv.start();
  for (int ph = 0; ph < phases; ++ph) {
    int kind = (int)choose(S_WORK, 3);
    if (kind == 2 && n < most) { int m = range(S_WORK, 1, big ? 8 : 2); op("add %d threads", m); sv.pool->add_threads(m); n += m; }
    if (kind == 0) {             // a burst, then silence: everything must be run
      int b = big ? range(S_WORK, n, 200) : range(S_WORK, 1, 3 * n + 2); std::vector<int> ids; op("burst of %d for %d threads", b, n);
      for (int k = 0; k < b; ++k) { int d = (int)choose(S_WORK, 4); ids.push_back(spawn("burst" + std::to_string(k), [&, k, d, ph] {
        Raw c; if (!c.connect(SRV, PORT)) violation("connect", "cannot connect");
        std::string t = "b" + std::to_string(ph) + "." + std::to_string(k);
        c.send(http_request(run_call(t, d), "", false));
        HttpMsg m = c.read_http(300 * SEC); bool f; int code; std::string text;
        CHECK(lg.ran(t) == 1, "not-run", "request %s run %d times although nothing else is going on\n%s", t.c_str(), lg.ran(t), thread_dump().c_str());
        CHECK(m.ok && parse_response(m.body, f, code, text) && text == "A:" + t, "not-answered", "request %s run but not answered", t.c_str());
      }, peer_ip(k), true)); }
      CHECK(join(ids, 1000 * SEC), "hang", "burst never answered: %s", unfinished(ids).c_str());
      CHECK(lg.max_running <= n, "too-parallel", "%d methods at once in a pool of %d", lg.max_running, n);
    } else {
      op("meeting of %d", n);
      auto ids = mt.go(n, "meet");
      CHECK(join(ids, 1000 * SEC), "not-parallel", "%d calls that wait for each other never meet in a pool of %d: %s", n, n, unfinished(ids).c_str());
    }
    if (choose(S_WORK, 2)) sim::sleep((Time)choose(S_WORK, 10) * MS); else if (choose(S_WORK, 6) == 1) { op("a long quiet time"); sim::sleep((Time)range(S_WORK, 1, 5000) * 20 * SEC); }
  }
  sv.expect_alive("pool");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R21 ------------------------------------------------------------------------
namespace {
struct Trace { std::map<std::string, std::vector<std::string>> ev; void add(const std::string& t, const std::string& e) { ev[t].push_back(e); log("%s %s", t.c_str(), e.c_str()); } };
// bits of a call's plan for interceptor i: 1 throw before passing on, 2 throw after, 3 answer itself without passing on
struct Ic: ix::Interceptor {
  int i; Trace& tr; Ic(int i_, Trace& t): i(i_), tr(t) {}
  void process(ix::Method* m, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(), n = std::to_string(i); int plan = p.at(1).get_int() >> (2 * i) & 3;
    tr.add(t, "in" + n);
    if (p.at(3).get_int() > i) sim::sleep(300 * US);
    if (plan == 1) { tr.add(t, "throw" + n); if (p.at(4).get_int()) throw std::runtime_error("I" + n + ":" + t); throw ix::Fault(1000 + i, "I" + n + ":" + t); }
    if (plan == 3) { tr.add(t, "own" + n); r = "O" + n + ":" + t; return; }
    try { yield(m, p, r); } catch (...) { tr.add(t, "ex" + n); throw; }
    tr.add(t, "out" + n);
    if (plan == 2) { tr.add(t, "throw" + n); throw ix::Fault(2000 + i, "J" + n + ":" + t); }
  }
};
}
WORLD(R21, interceptors, 1)
{
  swarm_sched(); swarm_net(); draw_tls(6);
  int pool = range(S_CFG, 0, 4), nic = range(S_CFG, 0, 4), ncl = range(S_CFG, 1, 4), ncalls = range(S_CFG, 1, 5);
  if (choose(S_CFG, 12) == 1) nic = range(S_CFG, 5, 15);
  Trace tr; draw_together(pool); ServerNode sv(pool);
  sv.add("m", [&](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(); tr.add(t, "method"); sim::yield("method");
    int k = p.at(2).get_int();
    if (k == 1) throw ix::Fault(77, "F:" + t);
    if (k == 2) throw std::runtime_error("E:" + t);
    r = "A:" + t;
  });
  int all = nic, phases = range(S_CFG, 1, 2); nic = phases > 1 ? (int)choose(S_CFG, (uint32_t)all + 1) : all;   // some are installed between two times of serving
  for (int ph = 0, i = 0; ph < phases; ++ph) {
  if (ph) nic = all;
  for (; i < nic; ++i) sv.srv->push_interceptor(new Ic(i, tr));
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k, ph] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < ncalls; ++i) {
        std::string t = "t" + std::to_string(ph) + "." + std::to_string(k) + "." + std::to_string(i);
        int plan = 0, mk = (int)choose(st, 5), se = (int)choose(st, 2); for (int j = 0; j < nic; ++j) { int q = (int)choose(st, nic > 4 ? 24 : 8); if (q >= 1 && q <= 3) plan |= q << (2 * j); }
        if (mk > 2) mk = 0;
        Param_list p; p.push_back(Value(t)); p.push_back(Value(plan)); p.push_back(Value(mk)); p.push_back(Value((int)choose(st, 4))); p.push_back(Value(se));
        op("call %s plan %x method %d", t.c_str(), plan, mk);
        Out o = call(*c, "m", p);
        // reference: outermost is the last installed
        std::vector<std::string> want; std::string res = mk == 1 ? "F:" + t : mk == 2 ? "E:" + t : "A:" + t; bool ex = mk != 0; int j = nic - 1, code = mk == 1 ? 77 : 0;
        for (; j >= 0; --j) { want.push_back("in" + std::to_string(j)); if ((plan >> (2 * j) & 3) == 1) { want.push_back("throw" + std::to_string(j)); ex = true; res = "I" + std::to_string(j) + ":" + t; code = se ? 0 : 1000 + j; break; } if ((plan >> (2 * j) & 3) == 3) { want.push_back("own" + std::to_string(j)); ex = false; res = "O" + std::to_string(j) + ":" + t; code = 0; break; } }
        if (j < 0) want.push_back("method");
        for (++j; j < nic; ++j) {
          if (ex) want.push_back("ex" + std::to_string(j));
          else { want.push_back("out" + std::to_string(j)); if ((plan >> (2 * j) & 3) == 2) { want.push_back("throw" + std::to_string(j)); ex = true; res = "J" + std::to_string(j) + ":" + t; code = 2000 + j; } }
        }
        std::string a, b; for (auto& e : want) a += e + " "; for (auto& e : tr.ev[t]) b += e + " ";
        CHECK(a == b, "nesting", "call %s passed '%s', expected '%s'", t.c_str(), b.c_str(), a.c_str());
        std::string got = o.ok() ? o.value().get_string() : o.text;
        CHECK(o.response() && o.ok() == !ex && got == res && (!code || o.code == code), "outcome", "call %s ended with %s, expected '%s'", t.c_str(), o.str().c_str(), res.c_str());
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("interceptors");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  }
  sv.destroy();
}

// ---- R19 ------------------------------------------------------------------------
namespace {
// a stream that lets other threads run in the middle of a write
struct SlowBuf: std::streambuf {
  std::string s;
  int overflow(int c) { yield("log"); if (c != EOF) s += (char)c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) { for (std::streamsize i = 0; i < n; ++i) { if (i % 3 == 0) yield("log"); s += p[i]; } return n; }
};
}
namespace {
struct Keys: ix::Auth_Plugin_base {        // each server has its own passwords and opinion about anonymous callers
  std::string who; bool anon; Keys(const std::string& w, bool a): who(w), anon(a) {}
  bool do_authenticate(const std::string& u, const std::string& p) const { yield("auth"); bool ok = p == who + "-" + u; yield("auth"); return ok; }
  bool do_authenticate_anonymous() const { yield("auth"); return anon; }
};
}
WORLD(R19, independent, 2)
{
  swarm_sched(); swarm_net();
  const uint32_t SRV2 = 0x0a000002; bool apart = choose(S_CFG, 2);   // the second server may live on another host
  add_host("one.sim", SRV, choose(S_CFG, 6) == 1 ? range(S_CFG, 1, 200) : 0); add_host("two.sim", apart ? SRV2 : SRV);
  int pa = range(S_CFG, 0, 3), pb = range(S_CFG, 0, 2), ncl = range(S_CFG, 2, 5), ncalls = range(S_CFG, 1, 4);
  SlowBuf buf; std::ostream os(&buf); std::multiset<std::string> lines;
  bool ta = choose(S_CFG, 4) == 1, tb = choose(S_CFG, 3) == 1, auth = choose(S_CFG, 2), anon_a = choose(S_CFG, 2), anon_b = choose(S_CFG, 2);
  Keys ka("ka", anon_a), kb("kb", anon_b);
  int port_b = apart && choose(S_CFG, 2) ? PORT : PORT + 1;   // they may differ in host, in port or in both
  ServerNode a(pa, ta), b(pb, tb, port_b); if (apart) b.host = SRV2;
  if (auth) { a.srv->set_auth_plugin(ka); b.srv->set_auth_plugin(kb); }
  std::map<std::string, std::string> ran;
  auto m = [&](const char* who, const char* name) { std::string w = who, nm = name; return [&ran, &lines, w, nm](ix::Method* me, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(); CHECK(!ran.count(t), "executions", "call %s ran twice", t.c_str()); ran[t] = w;
    if (w == "a") { std::string l = "line " + t + " of " + nm; lines.insert(l); me->server().log_message(l); }
    r = w + "." + nm + ":" + t + "@" + me->authname() + "#" + (me->xheaders().find("x-me") == me->xheaders().end() ? std::string() : me->xheaders().find("x-me")->second);
  }; };
  a.add("same", m("a", "same")); b.add("same", m("b", "same")); a.add("onlya", m("a", "onlya")); b.add("onlyb", m("b", "onlyb"));
  a.srv->log_errors(&os);
  a.start(); b.start();
  bool named = choose(S_CFG, 3) != 0;
  iqnet::Inet_addr addr_a(named ? "one.sim" : "10.0.0.1", PORT), addr_b(named ? (apart || choose(S_CFG, 2) ? "two.sim" : "one.sim") : apart ? "10.0.0.2" : "10.0.0.1", port_b);
  std::vector<int> ids; int uk = 0;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; bool toa = choose(st, 3) != 1;
      auto c = make_client(toa ? ta : tb, toa ? addr_a : addr_b); c->set_keep_alive(choose(st, 2));
      std::string user; bool good = true, xh = choose(st, 2); std::string xv = xh ? "x" + std::to_string(k) : "";
      if (xh) { ix::XHeaders h; std::map<std::string, std::string> m; m["X-me"] = xv; h = m; c->set_xheaders(h); }
      for (int i = 0; i < ncalls; ++i) {
        if (auth && (i == 0 || choose(st, 3) == 1)) {
          int ck = (int)choose(st, 4);                 // own password, the other server's, anonymous
          std::string u = "u" + std::to_string(choose(st, 3)), mine = toa ? "ka-" : "kb-", other = toa ? "kb-" : "ka-";
          if (ck == 3 && i == 0) { user = ""; good = toa ? anon_a : anon_b; }
          else { good = ck != 2; user = u; c->set_authinfo(u, (good ? mine : other) + u); }
        }
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i); int q = (int)choose(st, 3);
        std::string nm = q == 0 ? "same" : q == 1 ? "onlya" : "onlyb", w = toa ? "a" : "b"; bool known = q == 0 || (q == 1) == toa;
        Param_list p; p.push_back(Value(t));
        op("client %d calls %s at %s", k, nm.c_str(), w.c_str());
        Out o = call(*c, nm, p);
        if (!good && toa) ++uk;
        if (!good) { CHECK(o.kind == Out::HTTP && o.code == 401 && !ran.count(t), "wrong-answer", "call %s with credentials for another server (user '%s') at %s: %s", t.c_str(), user.c_str(), w.c_str(), o.str().c_str()); continue; }
        if (known) {
          CHECK(o.ok() && o.value().get_string() == w + "." + nm + ":" + t + "@" + user + "#" + xv, "wrong-answer", "call %s %s to server %s: %s", t.c_str(), nm.c_str(), w.c_str(), o.str().c_str());
          CHECK(ran.count(t) && ran[t] == w, "wrong-server", "call %s for server %s ran at '%s'", t.c_str(), w.c_str(), ran.count(t) ? ran[t].c_str() : "none");
        } else { CHECK(o.kind == Out::FAULT && o.code == -32601, "wrong-answer", "unknown method at %s: %s", w.c_str(), o.str().c_str()); if (toa) ++uk; }
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  a.expect_alive("independent"); b.expect_alive("independent");
  sim::sleep(SEC);
  // every line logged by a method comes out whole, once; other lines are the library's own
  std::string s = buf.s, line; int own = 0;
  CHECK(s.empty() || s.back() == '\n', "log-lines", "log does not end with a line end");
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i); line = s.substr(i, e - i); i = e + 1;
    auto it = lines.find(line); if (it != lines.end()) { lines.erase(it); continue; }
    CHECK(line.find("line t") == std::string::npos, "log-lines", "torn or merged log line '%s'", line.c_str());
    ++own;
  }
  CHECK(lines.empty(), "log-lines", "log line '%s' is missing; log is '%s'", lines.empty() ? "" : lines.begin()->c_str(), s.substr(0, 300).c_str());
  if (!ta) CHECK(own <= uk, "log-lines", "%d unexpected log lines for %d refused or unknown calls: '%s'", own, uk, s.substr(0, 500).c_str());
  nontrivial();
  CHECK(a.stop(), "no-stop", "server a does not stop"); b.expect_alive("after the other server stopped");
  int id = spawn("after", [&] { auto c = make_client(tb, addr_b); if (auth) c->set_authinfo("u", "kb-u"); Param_list p; p.push_back(Value("z")); Out o = call(*c, "same", p); CHECK(o.ok() && o.value().get_string() == std::string("b.same:z@") + (auth ? "u" : "") + "#", "wrong-answer", "after the other server stopped: %s", o.str().c_str()); }, peer_ip(9));
  CHECK(join({id}, 1000 * SEC), "hang", "call hangs after the other server stopped");
  CHECK(b.stop(), "no-stop", "server b does not stop");
  a.destroy(); b.destroy();
}

// A server whose methods are clients of other servers, some of which fail: clients and servers share threads.
WORLD(R19, gateway, 1)
{
  swarm_sched(); swarm_net();
  const uint32_t SRV2 = 0x0a000002, BAD = 0x0a000201; const int BPORT = 8080;
  int pf = range(S_CFG, 0, 3), pb = range(S_CFG, 0, 2), ncl = range(S_CFG, 1, 4), ncalls = range(S_CFG, 1, 5);
  bool tf = choose(S_CFG, 2), tb = choose(S_CFG, 2), bad = choose(S_CFG, 4) != 1;
  ServerNode front(pf, tf), back(pb, tb); back.host = SRV2;
  Ledger lg; lg.install(back); std::map<std::string, int> relayed;
  std::unique_ptr<ix::Client_base> kept;               // the serial server uses one client object for all its calls
  if (!pf && choose(S_CFG, 2)) { kept = make_client(tb, iqnet::Inet_addr("10.0.0.2", PORT)); kept->set_keep_alive(choose(S_CFG, 2)); }
  front.add("plain", [](ix::Method*, const Param_list& p, Value& r) { r = "P:" + p.at(0).get_string(); });
  front.add("relay", [&](ix::Method*, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(); int where = p.at(1).get_int();
    relayed[t]++;
    try {
      std::unique_ptr<ix::Client_base> own; ix::Client_base* c = kept.get();
      if (where >= 2) { own = make_client(where == 3, iqnet::Inet_addr("10.0.2.1", BPORT)); own->set_timeout(2); c = own.get(); }
      else if (!c) { own = make_client(tb, iqnet::Inet_addr("10.0.0.2", PORT)); c = own.get(); }
      Param_list q; q.push_back(Value(t)); q.push_back(p.at(2)); q.push_back(Value(where == 1 ? 1 : 0));
      ix::Response a = c->execute("run", q);
      if (a.is_fault()) throw ix::Fault(a.fault_code(), a.fault_string());
      r = "R:" + a.value().get_string();
    }
    catch (const ix::Fault&) { throw; }
    catch (const std::exception& e) { throw std::runtime_error("relay failed: " + std::string(e.what())); }
  });
  front.start(); back.start();
  bool over = false;
  int bt = bad ? spawn("bad", [&] {                    // answers calls in wrong ways
    int st = S_WORK + 40; Listener l; if (!l.open(BAD, BPORT)) harness_error("listener");
    while (!over) {
      int fd = l.accept(SEC); if (fd < 0) continue;
      int how = (int)choose(st, 6);
      spawn("conn", [&, fd, how] {
        Raw r; r.fd = fd; int s2 = S_WORK + 41;
        if (how == 0) { fault(F_PEER_RESET); r.reset(); return; }
        if (how == 1) { fault(F_PEER_CLOSE); r.close(); return; }
        if (how == 2) { fault(F_PEER_STALL); r.wait_close(20 * SEC); r.close(); return; }
        r.recv_some(5 * SEC);
        if (how == 3) { fault(F_PEER_GARBAGE); r.send("HTTP/1.1 200 OK\r\nContent-length: 9\r\n\r\n<garbage>"); }
        else if (how == 4) { fault(F_PEER_GARBAGE); r.send(rnd_bytes(s2, 1 + choose(s2, 60), std::string("\x16\x15\x03\x01\x00\x02\x28\xff", 8))); }
        else { fault(F_PEER_RESET); sim::sleep((Time)choose(s2, 100) * MS); r.reset(); return; }
        r.wait_close(20 * SEC); r.close();
      }, BAD, true);
    }
    l.close();
  }, BAD, true) : -1;
  if (bad) wait_until([&] { return has_listener(BAD, BPORT); }, 100 * SEC, "listener");
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; auto c = make_client(tf, iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < ncalls; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i); int where = (int)choose(st, 5);   // 0 value, 1 fault, 2 and 3 failing servers, 4 no further call
        Param_list p; p.push_back(Value(t)); p.push_back(Value(where)); p.push_back(Value((int)choose(st, 4)));
        op("call %s goes to %d", t.c_str(), where);
        Out o = call(*c, where == 4 ? "plain" : "relay", p); std::string s = o.str().substr(0, 300);
        switch (where) {
        case 0: CHECK(o.ok() && o.value().get_string() == "R:A:" + t, "wrong-answer", "relayed call %s: %s", t.c_str(), s.c_str()); break;
        case 1: CHECK(o.kind == Out::FAULT && o.code == 77 && o.text == "F:" + t, "wrong-answer", "relayed fault %s: %s", t.c_str(), s.c_str()); break;
        case 4: CHECK(o.ok() && o.value().get_string() == "P:" + t, "wrong-answer", "call %s: %s", t.c_str(), s.c_str()); break;
        default: CHECK(o.kind == Out::FAULT && o.text.find("relay failed: ") == 0, "wrong-answer", "call %s relayed to a failing server: %s", t.c_str(), s.c_str()); break;
        }
        CHECK(relayed[t] == (where == 4 ? 0 : 1), "executions", "call %s was relayed %d times", t.c_str(), relayed[t]);
        CHECK(lg.ran(t) == (where < 2), "executions", "relayed call %s ran %d times", t.c_str(), lg.ran(t));
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s\n%s", unfinished(ids).c_str(), thread_dump().c_str());
  front.expect_alive("gateway"); back.expect_alive("gateway");
  nontrivial(); over = true; if (bad) join({bt}, 100 * SEC);
  CHECK(front.stop(), "no-stop", "server does not stop"); CHECK(back.stop(), "no-stop", "server does not stop");
  kept.reset(); front.destroy(); back.destroy();
}

// Threads that use separate objects of the library at the same time: what each of them sends and gets is what it would be alone.
WORLD(R19, shared, 2)
{
  swarm_sched(); swarm_net();
  if (choose(S_CFG, 2)) { static const int g[] = {20, 8, 60, 200}; knobs.edge_gap = g[choose(S_CFG, 4)]; }
  const uint32_t FAR = 0x0a000201; const int FPORT = 8080;
  int pool = range(S_CFG, 0, 3), ncl = range(S_CFG, 1, 3), nfar = range(S_CFG, 1, 3), nraw = range(S_CFG, 1, 2), n = range(S_CFG, 1, 3), focus = (int)choose(S_CFG, 7);
  if (focus == 5) { pool = range(S_CFG, 2, 4); ncl = nfar = 0; nraw = range(S_CFG, 3, 6); n = range(S_CFG, 2, 5); knobs.lat_max = 0; static const int g[] = {20, 8, 40, 100}; knobs.edge_gap = g[choose(S_CFG, 4)]; }   // answers made at the same time
  auto some = [focus](int st) -> Value {               // in part of the runs all threads handle the same type
    if (focus == 1) { char b[40]; snprintf(b, 40, "%04d%02d%02dT%02d:%02d:%02d", range(st, 1970, 2037), range(st, 1, 12), range(st, 1, 28), range(st, 0, 23), range(st, 0, 59), range(st, 0, 59)); return Value(ix::Date_time(std::string(b))); }
    if (focus == 2) { std::unique_ptr<ix::Binary_data> b(ix::Binary_data::from_data(std::string(choose(st, 40), (char)choose(st, 256)))); return Value(*b); }
    if (focus == 3) return Value(choose(st, 1000000) / 7.0);
    if (focus == 4) return Value((int64_t)choose(st, 1000000) * 123457);
    return rnd_value(st, 2, 60); };
  ServerNode sv(pool, false);
  sv.add("echo", [focus](ix::Method*, const Param_list& p, Value& r) { Value v = Value(ix::Array()); for (size_t i = 0; i < p.size(); ++i) v.push_back(p[i]); r = v; if (focus == 5) sim::sleep(10 * MS - sim::now() % (10 * MS)); });   // so that they end together
  sv.start();
  // a scripted server that keeps the heads of what it was sent, by path
  struct Seen { std::string line, host, auth, agent; size_t length; bool whole; }; std::map<std::string, std::vector<Seen>> seen; bool over = false;
  int far = spawn("far", [&] {
    Listener l; if (!l.open(FAR, FPORT)) harness_error("listener");
    while (!over) {
      int fd = l.accept(SEC); if (fd < 0) continue;
      spawn("conn", [&, fd] {
        Raw r; r.fd = fd;
        for (;;) {
          HttpMsg m = r.read_http(100000 * SEC); if (!m.ok) break;
          Seen s; s.line = m.head.substr(0, m.head.find("\r\n")); s.host = m.h["host"]; s.auth = m.h["authorization"]; s.agent = m.h["user-agent"]; s.length = m.body.size(); s.whole = m.body.find("</methodCall>") != std::string::npos;
          size_t a = s.line.find(' '), b = s.line.find(' ', a + 1); std::string path = s.line.substr(a + 1, b - a - 1); seen[path].push_back(s);
          if (!r.send(http_response(xml_ok("<string>" + path + "</string>"), "connection: keep-alive\r\n"))) break;
        }
        r.close();
      }, FAR, true);
    }
    l.close();
  }, FAR, true);
  wait_until([&] { return has_listener(FAR, FPORT); }, 100 * SEC, "listener");
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; auto c = make_client(false, iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < n; ++i) {
        Param_list p; int np = range(st, 1, 3); for (int j = 0; j < np; ++j) p.push_back(some(st));
        Out o = call(*c, "echo", p); op("client %d sent %s", k, vstr(p[0], 40).c_str());
        CHECK(o.ok() && o.value().is_array() && o.value().size() == p.size(), "wrong-answer", "call of %d values ended with %s", np, o.str().substr(0, 300).c_str());
        for (int j = 0; j < np; ++j) CHECK(veq(o.value()[j], p[j]), "wrong-answer", "sent %s, got %s back", vstr(p[j], 300).c_str(), vstr(o.value()[j], 300).c_str());
      }
    }, peer_ip(k)));
  for (int k = 0; k < nfar; ++k)
    ids.push_back(spawn("web" + std::to_string(k), [&, k] {
      int st = S_WORK + 10 + k; std::string path = "/p" + std::to_string(k), vhost = "host" + std::string(1 + choose(st, 12), (char)('a' + k)), user = "user" + std::to_string(k), pass(1 + choose(st, 20), (char)('k' + k)); bool auth = choose(st, 2);
      auto c = make_client(false, iqnet::Inet_addr("10.0.2.1", FPORT), path, vhost); c->set_keep_alive(choose(st, 2)); if (auth) c->set_authinfo(user, pass);
      for (int i = 0; i < n; ++i) {
        Param_list p; p.push_back(some(st)); Out o = call(*c, "m" + std::to_string(k), p); op("call to %s%s -> %s", vhost.c_str(), path.c_str(), o.str().substr(0, 40).c_str());
        CHECK(o.ok() && o.value().get_string() == path, "wrong-answer", "call to path %s ended with %s", path.c_str(), o.str().c_str());
        auto& v = seen[path]; CHECK((int)v.size() == i + 1, "wrong-request", "%zu requests for %s arrived instead of %d", v.size(), path.c_str(), i + 1);
        const Seen& s = v.back(); std::string wa = auth ? "Basic " + b64(user + ":" + pass) : "";
        CHECK(s.line == "POST " + path + " HTTP/1.0" && s.host == vhost + ":" + std::to_string(FPORT) && s.auth == wa && s.whole, "wrong-request", "'%s' host '%s' credentials '%s' arrived, expected path %s, host %s:%d, credentials '%s'", s.line.c_str(), s.host.c_str(), s.auth.c_str(), path.c_str(), vhost.c_str(), FPORT, wa.c_str());
      }
    }, peer_ip(10 + k)));
  for (int k = 0; k < nraw; ++k)
    ids.push_back(spawn("raw" + std::to_string(k), [&, k] {
      int st = S_WORK + 20 + k; Raw c; if (!c.connect(SRV, PORT)) violation("connect", "cannot connect");
      for (int i = 0; i < n; ++i) {
        std::string t = "r" + std::to_string(k) + "." + std::to_string(i); struct timespec t0, t1; clock_gettime(CLOCK_REALTIME, &t0);
        if (!c.send(http_request(xml_call("echo", xml_str(t)), "", true))) violation("connection-lost", "connection lost");
        HttpMsg m = c.read_http(1000 * SEC); clock_gettime(CLOCK_REALTIME, &t1);
        CHECK(m.ok && m.status == 200 && m.body.find(t) != std::string::npos, "wrong-answer", "request %s: status %d '%s'", t.c_str(), m.status, m.raw.substr(0, 300).c_str());
        struct tm tm; memset(&tm, 0, sizeof tm); const char* e = strptime(m.h["date"].c_str(), "%a, %d %b %Y %H:%M:%S GMT", &tm); time_t d = e && !*e ? timegm(&tm) : 0;
        CHECK(d >= t0.tv_sec && d <= t1.tv_sec, "wrong-date", "an answer made between %ld and %ld carries the date '%s'", (long)t0.tv_sec, (long)t1.tv_sec, m.h["date"].c_str());
        if (focus != 5 || !choose(st, 3)) sim::sleep((Time)choose(st, 1500) * MS);
      }
      c.close();
    }, peer_ip(20 + k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("shared"); nontrivial(); over = true;
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy(); join({far}, 10 * SEC);
}
