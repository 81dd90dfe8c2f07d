// Worlds about descriptors and memory.
#include "lab.h"
#include <openssl/ssl.h>
using namespace lab;

namespace {
const uint32_t FAR = 0x0a000201;

// A scripted far server (plain or TLS) that misbehaves in every way a client has to survive.
void far_conn(int fd, int st, bool tls, const bool& over)
{
  Raw r; r.fd = fd; int how = (int)choose(st, 8);
  auto end = [&] { fault(F_PEER_CLOSE); if (choose(st, 3) == 1) { fault(F_PEER_RESET); r.reset(); } else r.close(); };
  if (how == 1) { end(); return; }
  if (how == 2) { fault(F_PEER_GARBAGE); r.send("garbage \r\n\r\n\x16\x03\x01"); sim::sleep((Time)choose(st, 100) * MS); end(); return; }
  if (how == 3) { fault(F_PEER_STALL); wait_until([&] { return over; }, 60 * SEC, "stalled"); end(); return; }
  TlsRaw* t = nullptr; std::unique_ptr<TlsRaw> tp;
  if (tls) {
    tp.reset(t = new TlsRaw(r, true, 3));
    if (how == 4) t->cut_at = choose(st, 1500);
    if (how == 5) t->flip_at = choose(st, 1500);
    if (!t->handshake(60 * SEC)) { end(); return; }
  }
  for (int i = 0; i < 3; ++i) {
    HttpMsg m = t ? t->read_http(60 * SEC) : r.read_http(60 * SEC);
    if (!m.ok) break;
    std::string a = http_response(xml_ok("<string>far</string>"), choose(st, 2) ? "connection: keep-alive\r\n" : "");
    int h = how < 6 ? how : (int)choose(st, 8);
    if (h == 6) { a.resize(choose(st, (uint32_t)a.size())); if (t) t->send(a); else r.send(a); break; }
    if (h == 7) {
      std::string b = "<bad"; int k = (int)choose(st, 4);
      if (k) { b = choose(st, 3) == 1 ? xml_fault(3, "text") : xml_ok("<array><data>" + xml_value(st, rnd_value(st, 3, 30)) + "</data></array>"); if (k == 1) b.resize(choose(st, (uint32_t)b.size())); else if (k == 2) b[choose(st, (uint32_t)b.size())] = "<>/ x"[choose(st, 5)]; }
      a = http_response(b, "");
    } else if (h == 5) a = "HTTP/1.0 500 no\r\nContent-Length: 0\r\n\r\n";
    if (!(t ? t->send(a) : r.send(a))) break;
    if (choose(st, 3) == 1) { if (t) { SSL_shutdown(t->ssl); t->flush(); } break; }
  }
  end();
}

// Requests that fail in the middle of something.
std::string odd_request(int st, bool keep)
{
  std::string v = "<value><struct><member><name>a</name><value><array><data><value><i4>1</i4></value><value><string>x</string></value></data></array></value></member></struct></value>";
  switch (choose(st, 18)) {
  case 14: case 15: {                                  // any value, whole or cut or with a byte changed
    Value x = rnd_value(st, 3, 30); std::string b = xml_call("boom", "<param>" + xml_value(st, x) + "</param>"); int how = (int)choose(st, 3);
    if (how == 1) b.resize(choose(st, (uint32_t)b.size())); else if (how == 2) b[choose(st, (uint32_t)b.size())] = "<>/ x\t&"[choose(st, 7)];
    return http_request(b, "", keep);
  }
  case 16: {                                           // elements without text
    static const char* const e[] = { "i4", "int", "i8", "double", "boolean", "string", "dateTime.iso8601", "base64", "nil", "struct", "array", "what" };
    std::string b; int n = range(st, 1, 4); for (int i = 0; i < n; ++i) { std::string t = e[choose(st, 12)]; b += "<param><value><" + t + (choose(st, 2) ? "/>" : "></" + t + ">") + "</value></param>"; }
    return http_request(xml_call("boom", b), "", keep);
  }
  case 0: return http_request(xml_call("nosuch", xml_int(1)), "", keep);
  case 1: return http_request(xml_call("boom", xml_int((int)choose(st, 6))), "", keep);
  case 2: { std::string b = xml_call("boom", "<param>" + v + "</param>"); b.resize(choose(st, (uint32_t)b.size())); return http_request(b, "", keep); }   // ends anywhere
  case 3: { std::string b = xml_call("boom", "<param>" + v + "</param>"); b[choose(st, (uint32_t)b.size())] = '<'; return http_request(b, "", keep); }
  case 4: return http_request(xml_call("boom", "<param><value><struct><member><name>a</name><value><i4>1</i4></value><value><i4>2</i4></value></member></struct></value></param>"), "", keep);
  case 5: return http_request(xml_call("boom", "<param><value><array><data><value><i4>nan</i4></value></data></array></value></param>"), "", keep);
  case 6: return http_request(xml_call("boom", "<param><value><base64>!!</base64></value><value><nil/></value></param>"), "", keep);
  case 7: return http_request(xml_call("run", xml_int(1)), "Authorization: Basic " + b64(choose(st, 2) ? "u:p" : "u:bad") + "\r\n", keep);
  case 8: return http_request(xml_call("run", xml_int(1)), "Authorization: Basic *\r\n", keep);
  case 9: return http_request(xml_call("boom", xml_str(std::string(choose(st, 9000), 'q'))), "", keep);
  case 10: return http_request(xml_call("boom", xml_int(1)), "Expect: 100-continue\r\nX-a: b\r\n", keep);
  case 11: return http_request(xml_call("boom", xml_int(1)), "Expect: 200-what\r\n", keep);
  case 12: { std::string q = http_request(xml_call("boom", xml_int(1)), "", keep); q.resize(choose(st, (uint32_t)q.size())); return q; }
  case 13: return "GET / HTTP/1.0\r\nX-a: b\r\n\r\n";
  default: return "POST /RPC HTTP/1.0\r\nX-a: b\r\nno colon here\r\nContent-Length: 3\r\n\r\nabc";
  }
}

// A raw peer of the server under test.
void raw_peer(int st, bool tls, int n)
{
  Raw r; if (!r.connect(SRV, PORT, 100 * SEC)) return;
  int how = (int)choose(st, 12);
  if (how == 0) { sim::sleep((Time)choose(st, 2000) * MS); fault(F_PEER_CLOSE); if (choose(st, 2)) r.reset(); return; }
  if (how == 1) { fault(F_PEER_GARBAGE); r.send(rnd_bytes(st, 1 + choose(st, 300), std::string("GET \r\n:\x16\x03\0z", 11))); if (choose(st, 2)) r.wait_close((Time)choose(st, 2000) * MS); if (choose(st, 2)) r.reset(); return; }
  std::unique_ptr<TlsRaw> t;
  if (tls) {
    t.reset(new TlsRaw(r, false, (int)choose(st, 4)));
    if (how == 2) { t->cut_at = choose(st, 900); fault(F_PEER_STALL); }
    if (how == 3) t->flip_at = choose(st, 900);
    if (!t->handshake(20 * SEC)) { if (choose(st, 2)) r.reset(); return; }
  }
  bool keep = choose(st, 2); int calls = range(st, 1, 3);
  for (int i = 0; i < calls; ++i) {
    std::string q = http_request(run_call("r" + std::to_string(st) + "." + std::to_string(n) + "." + std::to_string(i), (int)choose(st, 30)), "", keep);
    if (how == 4) q.resize(choose(st, (uint32_t)q.size()));
    if (how == 5) q = http_request("<methodCall><x", "", keep);
    if (how == 6) q = "POST /RPC HTTP/1.0\r\nContent-Length: zz\r\n\r\n";
    if (how == 7) q = http_request(run_call("e", 0), "Expect: 100-continue\r\n", keep);
    if (how >= 9) q = odd_request(st, keep);
    if (!(t ? t->send(q) : r.send(q))) break;
    if (choose(st, 3) == 1) { fault(F_PEER_CLOSE); if (choose(st, 2)) sim::sleep((Time)choose(st, 40) * MS); break; }       // leaves without reading
    if (how == 8 && !t) { fault(F_HALF_CLOSE); r.half_close(); }
    HttpMsg m = t ? t->read_http(20 * SEC) : r.read_http(20 * SEC);
    if (!m.ok || !keep) break;
  }
  if (choose(st, 2)) r.wait_close((Time)choose(st, 3000) * MS);
  if (choose(st, 2)) r.reset();
}

struct Gate: iqnet::Firewall_base {
  std::string msg; bool has;
  Gate(bool h): has(h) {}
  bool grant(const iqnet::Inet_addr& a) { sockaddr_in in = *reinterpret_cast<const sockaddr_in*>(a.get_sockaddr()); return (ntohl(in.sin_addr.s_addr) & 1) == 0; }
  std::string message() { return has ? "HTTP/1.0 403 Forbidden\r\nContent-Length: 0\r\n\r\n" : ""; }
};
}

namespace {
// Method objects of the server, counted.
int made, gone;
struct Counted: ix::Method {
  bool dead = false; std::string text{"some text that is too long to be kept inside the string object"};
  Counted() { ++made; }
  ~Counted() { ++gone; }
  void execute(const Param_list& p, Value& r)
  {
    int how = p.size() && p[0].is_int() ? p[0].get_int() : 0;
    if (how == 1) throw ix::Fault(5, text);
    if (how == 2) throw std::runtime_error(text);
    if (how == 3) throw 7;
    if (how == 5) throw ix::http::Unauthorized();
    ix::Struct s; s.insert("a", Value(text)); ix::Array a; a.push_back(Value(1)); a.push_back(Value(s)); r = Value(a);
    if (how == 4) throw ix::Exception(text);
  }
};
struct CountedFactory: ix::Method_factory_base { ix::Method* create() { return new Counted; } };
struct UserP: ix::Auth_Plugin_base {
  bool do_authenticate(const std::string&, const std::string& p) const { return p == "p"; }
  bool do_authenticate_anonymous() const { return true; }
};
struct Through: ix::Interceptor { void process(ix::Method* m, const Param_list& p, Value& r) { yield(m, p, r); } };

// Every kind of client call and every kind of peer; sockets of each host are counted.
// With `memory` also memory that nothing refers to any more is looked for.
void mixed(bool memory)
{
  swarm_sched(); swarm_net();
  knobs.fd_fresh = choose(S_CFG, 4) != 1;
  bool tls = choose(S_CFG, 2), fire = choose(S_CFG, 3) == 1; int pool = range(S_CFG, 0, 2);
  ServerNode sv(pool, tls); Ledger lg; lg.install(sv);
  sv.srv->register_method("boom", new CountedFactory); made = gone = 0; UserP up;
  if (memory) {
    if (choose(S_CFG, 2)) sv.srv->set_auth_plugin(up);
    if (choose(S_CFG, 2)) sv.srv->push_interceptor(new Through);
    if (choose(S_CFG, 3) == 1) sv.srv->set_max_request_sz(4000);
    if (choose(S_CFG, 3) == 1) sv.srv->set_verification_level(ix::http::HTTP_CHECK_STRICT);
    if (choose(S_CFG, 3) == 1) { Value::set_default_int(7); Value::set_default_int64(8); }
  }
  Gate* gate = nullptr; if (fire) sv.srv->set_firewall(gate = new Gate(choose(S_CFG, 2)));
  sv.start(); sim::sleep(SEC);
  size_t base = open_tcp_host(SRV); bool over = false;
  if (choose(S_CFG, 3) == 1) knobs.accept_err_permille = 150;
  if (choose(S_CFG, 4) == 1) knobs.socket_err_permille = 150;
  if (choose(S_CFG, 3) == 1) swarm_faults(true, false, 0);
  if (choose(S_CFG, 4) == 1) knobs.eintr_permille = 50;
  if (choose(S_CFG, 4) == 1) knobs.dns_fail_permille = 300;
  set_blackhole(FAR, PORT + 2, true);
  add_host("far.example", FAR);
  spawn("far", [&] {
    Listener l; if (!l.open(FAR, PORT)) harness_error("listener"); int n = 0;
    while (!over) { int fd = l.accept(SEC); if (fd >= 0) { int st = S_WORK + 30 + n++ % 10; spawn("farconn", [fd, st, tls, &over] { far_conn(fd, st, tls, over); }, FAR, true); } }
    l.close();
  }, FAR, true);
  wait_until([] { return has_listener(FAR, PORT); }, 10 * SEC, "listener");
  std::vector<int> ids; int ncl = range(S_CFG, 1, 2), nraw = range(S_CFG, 0, 4);
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k, n = range(st, 1, 5); uint32_t me = peer_ip(k);
      for (int i = 0; i < n; ++i) {
        int to = (int)choose(st, 5); bool ka = choose(st, 2); std::unique_ptr<ix::Client_base> c;
        try {
          static const struct { const char* h; int p; } tgt[] = { { "10.0.0.1", PORT }, { "10.0.2.1", PORT }, { "10.0.2.1", PORT + 1 }, { "10.0.2.1", PORT + 2 }, { "far.example", PORT } };
          c = make_client(tls, iqnet::Inet_addr(tgt[to].h, tgt[to].p));
        } catch (const std::exception&) {}
        if (c) {
          c->set_keep_alive(ka); c->set_timeout(range(st, 1, 4)); int m = range(st, 1, 4);
          for (int j = 0; j < m; ++j) {
            if (chance(st, 150)) { ka = !ka; c->set_keep_alive(ka); }
            Param_list p; p.push_back(Value("c" + std::to_string(k) + "." + std::to_string(i) + "." + std::to_string(j))); p.push_back(Value((int)choose(st, 20))); p.push_back(Value((int)choose(st, 2)));
            if (memory && choose(st, 4) == 1) { ix::XHeaders xh; xh["X-one"] = "1"; c->set_xheaders(xh); c->set_authinfo("u", choose(st, 2) ? "p" : "bad"); }
            bool boom = choose(st, 4) == 1; if (boom) { p.clear(); p.push_back(Value((int)choose(st, 6))); }
            Out o = call(*c, boom ? "boom" : "run", p); size_t open = open_tcp_host(me);
            op("target %d keep-alive %d -> %s, %zu open", to, ka, o.str().substr(0, 50).c_str(), open);
            if (!ka || !o.response()) CHECK(open == 0, "client-leak", "call to target %d ended with %s (keep-alive %d) and left %zu sockets open: %s", to, o.str().c_str(), ka, open, fd_dump().c_str());
            CHECK(open <= 1, "client-leak", "the client holds %zu sockets: %s", open, fd_dump().c_str());
            nontrivial();
          }
          c.reset();
        }
        CHECK(open_fds_host(me) == 0, "client-leak", "client destroyed, sockets still open: %s", fd_dump().c_str());
      }
    }, peer_ip(k)));
  for (int k = 0; k < nraw; ++k)
    ids.push_back(spawn("raw" + std::to_string(k), [&, k] { int st = S_WORK + 10 + k, n = range(st, 1, 4); for (int i = 0; i < n; ++i) raw_peer(st, tls, i); }, peer_ip(40 + k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "%s", unfinished(ids).c_str());
  over = true; knobs.accept_err_permille = 0; knobs.socket_err_permille = 0;
  sim::sleep(100 * SEC);
  sv.expect_alive("mixed load");
  if (memory) {
    CHECK(made == gone, "objects-left", "%d method objects were made for requests, %d are destroyed, and nothing is going on", made, gone);
    leak_check("nothing is going on any more");
  }
  CHECK(open_tcp_host(SRV) == base, "server-leak", "all peers are gone, the server has %zu instead of %zu sockets: %s", open_tcp_host(SRV), base, fd_dump().c_str());
  CHECK(sv.stop(), "no-stop", "server does not stop");
  CHECK(!has_listener(SRV, PORT), "still-listening", "serving has ended but the port is still open");
  sv.destroy();
  CHECK(open_fds_lib() == 0, "leak", "everything destroyed, still open: %s", fd_dump().c_str());
  CHECK(stale_ops() == 0, "closed-descriptor", "operation on a closed descriptor: %s", stale_detail().c_str());
  if (memory) { sv.srv.reset(); sv.ef.reset(); delete gate; leak_check("everything is destroyed"); }
}

struct Loud { int q; Loud(): q(quiet_) { quiet_ = 0; } ~Loud() { quiet_ = q; } };

// The same work again and again: once everything has been seen, memory in use between rounds must not keep growing.
void steady()
{
  swarm_sched(); swarm_net(); draw_tls(4); if (wire_tls) tls_no_cache();
  bool longer = choose(S_CFG, 3) == 1;
  int pool = range(S_CFG, 0, 2), st = S_WORK, n = range(S_CFG, 1, longer ? 2 : 5); Quiet driver;
  track_memory(true);
  std::unique_ptr<Loud> loud(new Loud); ServerNode sv(pool); UserP up;
  sv.srv->register_method("boom", new CountedFactory);
  if (choose(S_CFG, 2)) sv.srv->set_auth_plugin(up);
  if (choose(S_CFG, 2)) sv.srv->push_interceptor(new Through);
  if (choose(S_CFG, 3) == 1) sv.srv->set_max_request_sz(4000);
  if (choose(S_CFG, 3) == 1) sv.srv->set_verification_level(ix::http::HTTP_CHECK_STRICT);
  if (choose(S_CFG, 3) == 1) { Value::set_default_int(7); Value::set_default_int64(8); }
  std::unique_ptr<Gate> gate; if (choose(S_CFG, 3) == 1) sv.srv->set_firewall((gate.reset(new Gate(choose(S_CFG, 2))), gate.get()));
  loud.reset();
  sv.start(); sim::sleep(SEC);
  struct Op { int kind, arg; bool ka, odd_host; std::string bytes; Raw keep; std::unique_ptr<ix::Client_base> c; };
  std::vector<std::unique_ptr<Op>> ops; set_blackhole(FAR, PORT + 2, true);
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<Op> o(new Op); o->kind = (int)choose(st, 8); o->arg = (int)choose(st, 6); o->ka = choose(st, 2); o->odd_host = choose(st, 4) == 1;
    std::string hd = choose(st, 3) == 1 ? "Authorization: Basic " + b64(choose(st, 2) ? "u:p" : "u:bad") + "\r\n" : "";
    if (choose(st, 3) == 1) hd += "X-one: 1\r\nX-two: some longer text of an application header\r\n";
    if (choose(st, 4) == 1) hd += "Expect: 100-continue\r\n";
    o->bytes = http_request(xml_call(choose(st, 5) == 1 ? "nosuch" : "boom", xml_int(o->arg) + xml_str(std::string(choose(st, 300), 'z'))), hd, o->kind == 1);
    if (o->kind == 2) { o->bytes = odd_request(st, false); }
    if (o->kind == 7) o->bytes.resize(choose(st, (uint32_t)o->bytes.size()));
    ops.push_back(std::move(o));
  }
  auto act = [&](Op& o) {
    static const int to[] = { PORT, PORT, PORT, PORT + 1, PORT + 2 };
    if (o.kind <= 2 || o.kind == 7) {
      self()->foreign = true; set_host(peer_ip(o.odd_host)); Raw fresh; Raw& r = o.kind == 1 ? o.keep : fresh;
      if (r.fd < 0 && !r.connect(SRV, PORT, 20 * SEC)) { self()->foreign = false; return; }
      r.send(o.bytes);
      if (o.kind == 7 && o.ka && !wire_tls) r.half_close();
      HttpMsg m; if (o.kind != 7) { m = r.read_http(5 * SEC); if (m.ok && m.status == 100) m = r.read_http(5 * SEC); }
      if (o.kind != 1 || !m.ok || r.eof) { if (o.arg == 1) r.reset(); else r.close(); r = Raw(); }
      self()->foreign = false; return;
    }
    set_host(peer_ip(2 + o.odd_host));
    Loud l; std::unique_ptr<ix::Client_base> tmp; int where = o.kind == 6 ? 2 + o.arg % 3 : 0;
    std::unique_ptr<ix::Client_base>& c = o.kind == 3 || o.kind == 4 ? o.c : tmp;
    if (!c) {
      c = make_client(iqnet::Inet_addr(where >= 3 ? "10.0.2.1" : "10.0.0.1", to[where]));
      c->set_keep_alive(o.kind == 3 || o.ka); c->set_timeout(5);
    }
    ix::XHeaders xh; if (o.kind == 5) { xh["X-one"] = "1"; c->set_xheaders(xh); c->set_authinfo("u", o.arg == 2 ? "bad" : "p"); }
    Param_list p; p.push_back(Value(o.arg)); p.push_back(Value(std::string(40 * o.arg, 'q')));
    if (o.kind == 4) { xh["X-call"] = "per call"; call(*c, o.ka ? "nosuch" : "boom", p, &xh); } else call(*c, "boom", p);
  };
  const int WARM = 4, ROUNDS = 9; std::vector<size_t> cnt, byt; std::string seen;
  for (int i = 0; i < (longer ? 64 : WARM + ROUNDS); ++i) {
    for (auto& o: ops) act(*o);
    set_host(SRV); sim::sleep(20 * SEC);
    size_t c, b; live_memory(c, b); cnt.push_back(c); byt.push_back(b);
    seen += " " + std::to_string(c) + "/" + std::to_string(b); op("round %d: %zu blocks, %zu bytes", i, c, b);
  }
  bool grows = true; for (int i = WARM + 1; i < WARM + ROUNDS; ++i) if (byt[i] <= byt[i - 1]) grows = false;
  std::string what; for (auto& o: ops) what += " " + std::to_string(o->kind);
  CHECK(!grows, "grows", "the same work done again and again needs more memory each time (blocks/bytes after each round:%s; work:%s)", seen.c_str(), what.c_str());
  if (longer) {                                        // what piles up in a container that doubles grows seldom, but by ever more
    long g1 = (long)byt[15] - (long)byt[7], g2 = (long)byt[31] - (long)byt[15], g3 = (long)byt[63] - (long)byt[31];
    CHECK(!(g1 > 0 && 2 * g2 >= 3 * g1 && 2 * g3 >= 3 * g2 && g3 >= 500), "grows", "the same work done again and again piles up memory: %ld bytes from round 8 to 16, %ld to 32, %ld to 64 (blocks/bytes:%s; work:%s)", g1, g2, g3, seen.c_str(), what.c_str());
  }
  sv.expect_alive("steady work"); nontrivial();
  for (auto& o: ops) { { self()->foreign = true; if (o->keep.fd >= 0) o->keep.close(); self()->foreign = false; } o->c.reset(); }
  sim::sleep(20 * SEC);
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}
}

WORLD(R23, steady, 2) { steady(); }
WORLD(R15, mixed, 3) { mixed(false); }
WORLD(R23, mixed, 3) { mixed(true); }

// Servers come and go; creating or starting one may fail.
WORLD(R15, lifecycle, 1)
{
  swarm_sched(); swarm_net();
  knobs.fd_fresh = choose(S_CFG, 4) != 1;
  bool tls = choose(S_CFG, 3) == 1; int rounds = range(S_CFG, 1, 4); bool over = false;
  int errs = choose(S_CFG, 2) ? (int)pick(S_CFG, std::vector<int>{100, 300, 500}) : 0;
  int blocker = spawn("blocker", [&] {                 // now and then occupies the port
    int st = S_WORK + 3;
    while (!over) { Listener l; if (choose(st, 3) == 1 && l.open(SRV, PORT)) { fault(F_REFUSED); sim::sleep((Time)choose(st, 3000) * MS); l.close(); } sim::sleep((Time)(1 + choose(st, 3000)) * MS); }
  }, SRV, true);
  for (int i = 0; i < rounds; ++i) {
    int st = S_WORK; std::unique_ptr<ServerNode> sv; knobs.socket_err_permille = errs;
    try { sv.reset(new ServerNode((int)choose(st, 3), tls)); }
    catch (const std::exception& e) { op("create failed: %s", e.what()); probe("create_failed"); }
    if (!sv) { CHECK(open_fds_lib() == 0, "leak", "a server could not be created, descriptors left open: %s", fd_dump().c_str()); nontrivial(); continue; }
    Ledger lg; lg.install(*sv); size_t made = open_tcp_lib(); int cycles = range(st, 0, 3);
    for (int c = 0; c < cycles; ++c) {
      sv->start(false);
      wait_until([&] { return has_listener(SRV, PORT) || finished(sv->tid); }, 20 * SEC, "start");
      knobs.socket_err_permille = 0;
      if (finished(sv->tid)) {
        op("start failed: %s", sv->what.c_str()); probe("start_failed");
        CHECK(sv->threw, "returned", "serving ended without stop request");
        CHECK(open_tcp_lib() == made, "leak", "serving could not start (%s), descriptors left open: %s", sv->what.c_str(), fd_dump().c_str());
        nontrivial(); continue;
      }
      int n = (int)choose(st, 3); std::vector<int> ids;
      for (int k = 0; k < n; ++k) ids.push_back(spawn("raw" + std::to_string(k), [&, k, c] { raw_peer(S_WORK + 10 + k, tls, i * 10 + c); }, peer_ip(40 + k), true));
      CHECK(join(ids, 10000 * SEC), "hang", "%s", unfinished(ids).c_str());
      sim::sleep(50 * SEC);
      if (finished(sv->tid) && sv->threw) { nontrivial(); continue; }     // the port belonged to the other program after all
      sv->expect_alive("lifecycle");
      CHECK(sv->stop(), "no-stop", "server does not stop");
      CHECK(open_tcp_lib() == made, "leak", "serving has ended, %zu instead of %zu sockets are open: %s", open_tcp_lib(), made, fd_dump().c_str());
      op("cycle done"); nontrivial();
      knobs.socket_err_permille = errs;
    }
    sv->destroy(); nontrivial();
    CHECK(open_fds_lib() == 0, "leak", "the server is destroyed, descriptors left open: %s", fd_dump().c_str());
  }
  over = true; join({blocker}, 100 * SEC);
  CHECK(stale_ops() == 0, "closed-descriptor", "operation on a closed descriptor: %s", stale_detail().c_str());
}
