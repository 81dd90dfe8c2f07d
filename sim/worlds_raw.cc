// Server worlds driven by scripted peers that speak (or misspeak) HTTP byte by byte.
#include "lab.h"
using namespace lab;

namespace {
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
std::string lower(std::string s) { for (char& c : s) c = (char)tolower(c); return s; }
std::string rnd_case(int st, std::string s)
{
  int k = (int)choose(st, 3);
  for (size_t i = 0; i < s.size(); ++i) { if (k == 1 && (i == 0 || s[i - 1] == '-')) s[i] = (char)toupper(s[i]); else if (k == 2) s[i] = (char)toupper(s[i]); }
  return s;
}

// One generated request and what must come of it.
struct Req {
  std::string bytes, token; int status = 200; bool fault = false; int code = 0; std::string text; bool runs = false, keep = false;
  size_t head_len = 0; std::string kind;
};
Req gen_req(int st, const std::string& token, bool keep, bool strict, bool allow_bad)
{
  Req r; r.token = token; r.keep = keep;
  std::string nl = choose(st, 4) == 1 ? "\n" : "\r\n";
  int k = allow_bad ? (int)choose(st, 19) : (int)choose(st, 4);
  int mode = choose(st, 5) == 1 ? 1 : 0;
  std::string body, start = "POST", ver = choose(st, 2) ? "HTTP/1.0" : "HTTP/1.1";
  bool has_cl = true; std::string cl, ctype = "text/xml", extra;
  std::string pad = choose(st, 4) == 1 ? std::string(choose(st, 200), ' ') : "";
  // blank lines inside the body must not be mistaken for the end of the header
  std::string blank = choose(st, 3) == 1 ? (choose(st, 2) ? "\r\n\r\n" : "\n\n") : "";
  body = "<?xml version=\"1.0\"?>" + blank + "<methodCall>" + blank + pad + "<methodName>run</methodName><params>" + xml_str(token) + xml_int(0) + xml_int(mode) + "</params>" + blank + "</methodCall>" + blank;
  r.runs = true; r.fault = mode == 1; r.code = mode == 1 ? 77 : 0; r.text = (mode == 1 ? "F:" : "A:") + token; r.kind = "good";
  switch (k) {
  case 4: body = xml_call("nosuch", xml_str(token)); r.runs = false; r.fault = true; r.code = -32601; r.text = ""; r.kind = "unknown-method"; break;
  case 5: { size_t n = body.find("<methodName>"); body = body.substr(0, n + choose(st, (uint32_t)(body.size() - n - 14))); r.runs = false; r.fault = true; r.code = 0; r.text = ""; r.kind = "cut-xml"; break; }
  case 6: body = "this is not xml"; r.runs = false; r.fault = true; r.code = 0; r.text = ""; r.kind = "not-xml"; break;
  case 7: body = ""; r.runs = false; r.fault = true; r.code = 0; r.text = ""; r.kind = "empty-body"; break;
  case 8: body = "<foo><bar/></foo>"; r.runs = false; r.fault = true; r.code = 0; r.text = ""; r.kind = "other-xml"; break;
  case 9: has_cl = false; r.status = 411; r.kind = "no-length"; break;
  case 10: { static const char* m[] = {"GET", "PUT", "HEAD", "post", "POSTX", "DELETE"}; start = m[choose(st, 6)]; r.status = 405; r.kind = "method"; break; }
  case 11: { static const char* m[] = {"12x", "-5", "0x10", "99999999999", "1.5", "1 2"}; cl = m[choose(st, 6)]; r.status = 400; r.kind = "bad-length"; break; }
  case 12: extra = "no colon in this line" + nl; r.status = 400; r.kind = "no-colon"; break;
  case 13: extra = "Expect: something-else" + nl; r.status = 417; r.kind = "expectation"; break;
  case 14: ctype = "application/json"; if (strict) r.status = 415; r.kind = "content-type"; break;
  case 16: { size_t n = body.find("</params>"), m = body.find("<param>"); body.insert(choose(st, 2) ? n : m, "<param>" + bad_value(st) + "</param>"); r.runs = false; r.fault = true; r.code = 0; r.text = ""; r.kind = "bad-value"; break; }
  case 17: {                                              // well-formed, but no call
    std::string good = "<params>" + xml_str(token) + xml_int(0) + xml_int(0) + "</params>", name = "<methodName>run</methodName>";
    const std::string d[] = {"<methodCall></methodCall>", "<methodCall>" + good + "</methodCall>", "<methodCall>" + name + name + good + "</methodCall>", "<methodCall>" + name + good + good + "</methodCall>", "<methodCall>" + name + good + "<foo/></methodCall>",
      "<methodCall>" + name + "<params><value>1</value></params></methodCall>", "<methodCall><methodName>run<b/></methodName>" + good + "</methodCall>", "<methodResponse>" + good + "</methodResponse>", "<methodcall>" + name + good + "</methodcall>",
      "<a><methodCall>" + name + good + "</methodCall></a>", "<methodCall>" + name + good + "</methodCall><methodCall/>", "<methodCall>" + name + good + "</methodCall>xx", "<methodCall>" + name + "<params><param><value>1</value><value>2</value></param></params></methodCall>"};
    body = d[choose(st, sizeof d / sizeof *d)]; r.runs = false; r.fault = true; r.code = 0; r.text = ""; r.kind = "bad-call"; break; }
  default: break;
  }
  if (r.status != 200) { r.runs = r.fault = false; r.text = ""; }
  if (cl.empty()) cl = std::to_string(body.size());
  auto sp = [&] { return choose(st, 4) == 1 ? std::string("  ") : std::string(choose(st, 2) ? " " : ""); };
  std::vector<std::string> h;
  if (has_cl) h.push_back(rnd_case(st, "content-length") + ":" + sp() + cl + (choose(st, 4) == 1 ? " " : ""));
  h.push_back(rnd_case(st, "content-type") + ":" + sp() + (choose(st, 3) == 1 && ctype == "text/xml" ? "TEXT/XML; charset=utf-8" : ctype));
  if (keep || choose(st, 2)) h.push_back(rnd_case(st, "connection") + ":" + sp() + rnd_case(st, keep ? "keep-alive" : "close"));
  if (choose(st, 2)) h.push_back("Host: some.host:80");
  if (choose(st, 3) == 1) h.push_back("User-Agent: sim/1.0 (a: b)");
  if (choose(st, 3) == 1) h.push_back("X-Pad: " + rnd_bytes(st, choose(st, 300), "abc: "));
  // the padding must not end in blanks that make an empty value; a trailing colon is fine
  for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[choose(st, (uint32_t)i)]);
  r.bytes = start + " /RPC" + (choose(st, 3) == 1 ? "/x?y=z" : "") + " " + ver + nl;
  for (auto& l : h) r.bytes += l + nl;
  r.bytes += extra + nl;
  r.head_len = r.bytes.size();
  r.bytes += body;
  return r;
}
// The answer on the wire against the expectation.
void check_answer(const Req& r, const HttpMsg& m, const char* ctx)
{
  CHECK(m.ok, "no-answer", "%s request '%s' (%s) got no complete answer%s: '%s'", r.kind.c_str(), r.token.c_str(), ctx, m.truncated ? " (cut off)" : "", m.raw.substr(0, 200).c_str());
  CHECK(m.status == r.status, "wrong-status", "%s request '%s' answered with status %d instead of %d", r.kind.c_str(), r.token.c_str(), m.status, r.status);
  if (r.status != 200) return;
  bool f = false; int code = 0; std::string text;
  CHECK(parse_response(m.body, f, code, text), "bad-body", "%s request '%s': answer body is not a response: '%s'", r.kind.c_str(), r.token.c_str(), m.body.substr(0, 200).c_str());
  CHECK(f == r.fault, "wrong-outcome", "%s request '%s': fault=%d expected fault=%d text '%s'", r.kind.c_str(), r.token.c_str(), f, r.fault, text.c_str());
  CHECK(!r.code || code == r.code, "wrong-code", "%s request '%s': code %d expected %d", r.kind.c_str(), r.token.c_str(), code, r.code);
  CHECK(r.text.empty() || text == r.text, "wrong-text", "%s request '%s': text '%s' expected '%s'", r.kind.c_str(), r.token.c_str(), text.c_str(), r.text.c_str());
}
}

// ---- R03 ------------------------------------------------------------------------
WORLD(R03, stream, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4); if (wire_tls) draw_role(true);
  knobs.sndbuf = std::max<size_t>(knobs.sndbuf, 4096); knobs.rcvbuf = std::max<size_t>(knobs.rcvbuf, 4096);
  int pool = range(S_CFG, 0, 3), peers = range(S_CFG, 1, 3), nreq = range(S_CFG, 1, 5);
  bool strict = choose(S_CFG, 3) == 1;
  Ledger lg; draw_together(pool); ServerNode sv(pool); lg.install(sv);
  if (strict) sv.srv->set_verification_level(ix::http::HTTP_CHECK_STRICT);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < peers; ++k)
    ids.push_back(spawn("peer" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      int i = 0;
      while (i < nreq) {
        Raw c; if (!c.connect(SRV, PORT)) violation("connect", "peer cannot connect");
        bool open = true;
        while (open && i < nreq) {
          bool keep = choose(st, 3) != 0;
          Req r = gen_req(st, "t" + std::to_string(k) + "." + std::to_string(i++), keep, strict, true);
          bool half = !wire_tls && choose(st, 4) == 1; if (half) fault(F_HALF_CLOSE);
          op("peer %d %s request %s, %zu bytes%s", k, r.kind.c_str(), r.token.c_str(), r.bytes.size(), half ? ", half-close" : "");
          // when an error is decided by the header the server may close before the body arrives
          std::vector<size_t> cuts = rnd_cuts(st, r.bytes.size(), choose(st, 2) ? 6 : 1);
          if (choose(st, 3) == 1) { cuts.clear(); cuts.push_back(r.head_len + choose(st, 3) - (choose(st, 2) ? 2 : 0)); }
          // a request refused by its header is sometimes sent without its body, to see the answer for certain
          bool hdr_only = r.status != 200 && choose(st, 2);
          std::string bytes = hdr_only ? r.bytes.substr(0, r.head_len) : r.bytes;
          // some senders put a line end after the body of their last request
          bool tail = !keep && !hdr_only && !half && r.status == 200 && choose(st, 5) == 1;
          if (tail) bytes += choose(st, 2) ? "\r\n" : std::string(1 + choose(st, 5), '\n');
          bool ok = c.send_cut(bytes, cuts, choose(st, 2) ? 20 * MS : 0, st);
          if (half && ok) c.half_close();
          HttpMsg m = c.read_http(1000 * SEC);
          // body bytes that arrive after the refusing server closed turn the close into a reset
          if (!m.ok && r.status != 200 && bytes.size() > r.head_len && (c.err || !ok)) {
            probe("refusal_lost_to_reset");
            CHECK(lg.ran(r.token) == 0, "executions", "refused request %s ran its method", r.token.c_str());
            break;
          }
          if (!m.ok && tail && (c.err || !ok)) {      // the same for bytes after the body
            probe("answer_lost_to_reset");
            CHECK(wait_until([&] { return lg.ran(r.token) == (r.runs ? 1 : 0); }, 100 * SEC, "execution"), "executions", "%s request %s with a line end after its body ran its method %d times", r.kind.c_str(), r.token.c_str(), lg.ran(r.token));
            break;
          }
          check_answer(r, m, half ? "half-closed" : tail ? "followed by a line end" : "");
          CHECK(lg.ran(r.token) == (r.runs ? 1 : 0), "executions", "%s request %s ran its method %d times", r.kind.c_str(), r.token.c_str(), lg.ran(r.token));
          open = r.keep && r.status == 200 && !half;
          if (!open) {
            CHECK(c.wait_close(1000 * SEC), "not-closed", "connection not closed after %s request %s", r.kind.c_str(), r.token.c_str());
            CHECK(c.buf.empty(), "extra-bytes", "bytes after the answer to %s: '%s'", r.kind.c_str(), c.buf.substr(0, 100).c_str());
          }
        }
        c.close();
      }
    }, peer_ip(k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("request streams");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R04 ------------------------------------------------------------------------
namespace {
void hostile(int st, int k, int kind)
{
  Raw c;
  if (kind == 11) {            // connect and reset at once, several times
    for (int i = 0, n = range(st, 1, 4); i < n; ++i) { Raw q; q.connect(SRV, PORT); fault(F_PEER_RESET); if (choose(st, 2)) q.reset(); else q.close(); }
    return;
  }
  if (!c.connect(SRV, PORT)) return;
  std::string good = http_request(run_call("h" + std::to_string(k), (int)choose(st, 3) * 5, (int)choose(st, 2) ? 60000 : 0), "", true);
  Time nap = (Time)choose(st, 50) * MS;
  switch (kind) {
  case 0: fault(F_PEER_STALL); sim::sleep(nap); break;                                             // says nothing
  case 1: fault(F_PEER_GARBAGE); { std::string al; for (int i = 0; i < 256; ++i) al += (char)i; c.send(rnd_bytes(st, 1 + choose(st, 3000), al)); } sim::sleep(nap); break;
  case 2: c.send(good.substr(0, choose(st, (uint32_t)good.size()))); sim::sleep(nap); fault(F_PEER_RESET); c.reset(); return;
  case 3: c.send(good.substr(0, choose(st, (uint32_t)good.size()))); sim::sleep(nap); fault(F_PEER_CLOSE); c.close(); return;
  case 4: c.send(good); sim::sleep(nap); fault(F_PEER_RESET); c.reset(); return;                     // answer cannot be delivered
  case 5: c.send(good); sim::sleep(nap); fault(F_PEER_CLOSE); c.close(); return;
  case 6: c.send(good); fault(F_PEER_STALL); sim::sleep(nap + 2 * SEC); break;                       // never reads its answer
  case 7: c.send("POST / HTTP/1.0\r\ncontent-length: 4000000000\r\n\r\n"); c.send(rnd_bytes(st, choose(st, 5000), "zy")); sim::sleep(nap); break;
  case 8: fault(F_PEER_GARBAGE); c.send("\r\n\r\n\r\n"); sim::sleep(nap); c.send("\n\n"); sim::sleep(nap); break;
  case 9: { static const char* t[] = {"GET / HTTP/1.0\r\n\r\n", "POST / HTTP/1.0\r\ncontent-length: x\r\n\r\n", "POST\r\n\r\n", "POST / HTTP/1.0\r\n: \r\n\r\n", " \r\n\r\n", "POST / HTTP/1.0\r\nexpect: 100-continue\r\ncontent-length: 10\r\n\r\n", "POST / HTTP/1.0\r\ncontent-length: 3\r\n\r\n<a>" };
      fault(F_PEER_GARBAGE); std::string s = t[choose(st, 7)]; c.send_cut(s, rnd_cuts(st, s.size(), 3), MS, st);
      if (choose(st, 2)) c.send(rnd_bytes(st, choose(st, 2000), "ab\r\n"));
      if (choose(st, 2)) c.half_close(); else if (choose(st, 2)) { c.reset(); return; }
      sim::sleep(nap); break; }
  case 10: c.send_cut(good, rnd_cuts(st, good.size(), 4), MS, st); fault(F_HALF_CLOSE); c.half_close(); sim::sleep(nap); fault(F_PEER_RESET); c.reset(); return;
  default: break;
  }
  if (choose(st, 2)) c.close(); else { fault(F_PEER_RESET); c.reset(); }
}
}
WORLD(R04, hostile, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  knobs.max_steps = 1500000;
  int pool = range(S_CFG, 0, 3), nh = range(S_CFG, 1, 5), nc = range(S_CFG, 1, 2), ncalls = range(S_CFG, 1, 4);
  static const int ae[] = {0, 0, 100, 400}; knobs.accept_err_permille = ae[choose(S_CFG, 4)];
  if (choose(S_CFG, 3) == 1) knobs.eintr_permille = 150;
  if (choose(S_CFG, 4) == 1) knobs.thread_stall_permille = 2;
  bool stay = choose(S_CFG, 2);
  Ledger lg; ServerNode sv(pool); lg.install(sv);
  if (choose(S_CFG, 3) == 1) sv.srv->set_max_request_sz(200000);
  sv.start();
  std::vector<int> ids, hids; bool done = false;
  std::vector<int> kinds;
  for (int k = 0; k < nh; ++k) kinds.push_back((int)choose(S_WORK, 12));
  for (int k = 0; k < nh; ++k)
    hids.push_back(spawn("hostile" + std::to_string(k), [&, k] {
      int st = S_WORK + 10 + k;
      for (int i = 0; i < 3 && !done; ++i) { op("hostile %d does %d", k, kinds[k]); hostile(st, k, kinds[k]); kinds[k] = (int)choose(st, 12); sim::sleep((Time)choose(st, 20) * MS); }
      if (stay) {
        Raw idle; int how = (int)choose(st, 4); fault(F_PEER_STALL);
        if (how == 3) { idle.connect_plain(SRV, PORT); if (choose(st, 2)) idle.send(std::string("\x16\x03\x01\x02", 4)); }
        else if (!idle.connect(SRV, PORT)) {}
        else if (how == 1) idle.send("POST /");
        else if (how == 2) {      // asks for more than the buffers hold and never reads
          fd_set_buf(idle.fd, 0, 2000); std::string q = http_request(run_call("s" + std::to_string(k), 0, (int)knobs.sndbuf + 80000), "", true);
          idle.send(q);
        }
        op("hostile %d stays, kind %d", k, how);
        wait_until([&] { return done; }, 20000 * SEC, "staying"); sim::sleep(40 * SEC);
      }
    }, peer_ip(20 + k), true));
  for (int k = 0; k < nc; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
      c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < ncalls; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 3))); p.push_back(Value(0));
        Out o = call(*c, "run", p);
        op("healthy call %s -> %s", t.c_str(), o.str().substr(0, 60).c_str());
        CHECK(o.ok() && o.value().get_string() == "A:" + t, "healthy-call-hurt", "well-behaved call %s ended with %s", t.c_str(), o.str().c_str());
        CHECK(lg.ran(t) == 1, "executions", "well-behaved call %s ran %d times", t.c_str(), lg.ran(t));
        sim::sleep((Time)choose(st, 20) * MS);
      }
    }, peer_ip(k)));
  CHECK(join(ids, 5000 * SEC), "healthy-call-stuck", "calls of well-behaved clients do not complete: %s", unfinished(ids).c_str());
  done = true;
  sv.expect_alive("hostile peers");
  // while everything is quiet the loop must be blocked, not spinning
  knobs.accept_err_permille = knobs.eintr_permille = knobs.thread_stall_permille = 0;
  sim::sleep(30 * SEC);
  uint64_t s0 = out->steps; sim::sleep(20 * SEC);
  CHECK(out->steps - s0 < 3000, "spinning", "server burns CPU while nothing happens: %lu steps in 20 quiet seconds", (unsigned long)(out->steps - s0));
  sv.expect_alive("after hostile peers");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R11 ------------------------------------------------------------------------
namespace {
struct Auth: ix::Auth_Plugin_base {
  bool anon; std::string pre; Auth(bool a, const std::string& p): anon(a), pre(p) {}
  mutable std::vector<std::pair<std::string, std::string>> asked;
  bool good(const std::string& u, const std::string& p) const { return u != "evil" && (p == pre + u || p == "a:" + u + "::b" || (u == "open" && p.empty())); }
  bool do_authenticate(const std::string& u, const std::string& p) const { yield("auth"); { NoPreempt np; asked.push_back({u, p}); } if (u == "bomb") throw std::runtime_error("the user base is gone"); return good(u, p); }
  bool do_authenticate_anonymous() const { yield("auth"); return anon; }
};
}
WORLD(R11, auth, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  int pool = range(S_CFG, 0, 3), peers = range(S_CFG, 1, 4), nreq = range(S_CFG, 1, 6), phases = choose(S_CFG, 4) == 1 ? 2 : 1;
  bool anon = choose(S_CFG, 2), libclients = choose(S_CFG, 2);
  std::unique_ptr<Auth> ap(new Auth(anon, "pw-"));
  draw_together(pool); ServerNode sv(pool);
  std::map<std::string, std::pair<int, std::string>> seen;
  sv.add("who", [&](ix::Method* m, const Param_list& p, Value& r) {
    std::string t = p.at(0).get_string(), a = m->authname(); bool is = m->authenticated();
    auto& s = seen[t]; s.first++; s.second = a; log("run %s as '%s'", t.c_str(), a.c_str());
    int d = p.at(1).get_int(); if (d) sim::sleep(d * MS);
    if (m->authname() != a || m->authenticated() != is || is != !a.empty()) violation("context-changed", "user name changed while the method ran");
    r = t + "|" + a;
  });
  for (int ph = 0; ph < phases; ++ph) {
  if (ph) { anon = choose(S_CFG, 2); std::unique_ptr<Auth> next(new Auth(anon, choose(S_CFG, 2) ? "other-" : "pw-")); sv.srv->set_auth_plugin(*next); ap.swap(next); op("another plugin"); }   // the old one is gone then
  else sv.srv->set_auth_plugin(*ap);
  sv.start();
  std::vector<int> ids; const std::string pre = ap->pre, not_pre = pre == "pw-" ? "other-" : "pw-";
  for (int k = 0; k < peers; ++k)
    ids.push_back(spawn("peer" + std::to_string(k), [&, k, ph] {
      int st = S_WORK + 1 + k; Raw c;
      std::unique_ptr<ix::Client_base> cl;
      bool lib = libclients && k % 2 == 0;
      std::string lastuser;
      for (int i = 0; i < nreq; ++i) {
        std::string t = "t" + std::to_string(ph) + "." + std::to_string(k) + "." + std::to_string(i), user = "u" + std::to_string(choose(st, 4)), hdr, expect; bool ok;
        int kind = (int)choose(st, lib ? 7 : 16); if (lib && kind > 3) kind += 9;
        bool keep = choose(st, 3) != 0;
        if (choose(st, 8) == 1) user += rnd_bytes(st, choose(st, 60), "abcdefghij");
        else if (choose(st, 8) == 1) user = rnd_bytes(st, 1 + choose(st, 200), "aBcD @.\\%+/=_-") + (choose(st, 2) ? "\xc3\xa4\xe2\x82\xac" : "z");
        if (choose(st, 40) == 1) user = std::string(1000 + choose(st, 20000), 'u');
        std::string cred = user + ":" + pre + user;
        switch (kind) {
        case 0: hdr = "Basic " + b64(cred); expect = user; ok = true; break;
        case 1: cred = choose(st, 2) ? user + ":" + pre + "wrong" : user + ":" + not_pre + user; hdr = "Basic " + b64(cred); ok = false; break;
        case 2: hdr = ""; ok = anon; break;
        case 3: cred = "evil:" + pre + "evil"; hdr = "Basic " + b64(cred); ok = false; break;
        case 4: hdr = "basic " + b64(cred); expect = user; ok = true; break;
        case 5: hdr = "Digest " + b64(cred); ok = false; break;
        case 6: hdr = "Basic"; ok = false; break;
        case 7: hdr = "Basic !!!notbase64!!!"; ok = false; break;
        case 8: hdr = "Basic " + b64(user); ok = false; break;                       // no password
        case 9: hdr = "Basic " + b64(":" + pre); ok = true; expect = ""; break;          // empty user, plugin says yes
        case 10: hdr = "Basic  " + b64(cred); ok = false; break;
        case 11: hdr = b64(cred); ok = false; break;
        case 13: cred = user + ":a:" + user + "::b"; hdr = "Basic " + b64(cred); expect = user; ok = true; break;   // colons belong to the password
        case 14: user = "open"; cred = "open:"; hdr = "Basic " + b64(cred); expect = user; ok = true; break;      // an empty password is one
        case 15: user = "bomb"; cred = "bomb:" + pre + "bomb"; hdr = "Basic " + b64(cred); ok = false; break;              // the plugin raises an exception
        default: hdr = "Basic " + b64(user + ":" + pre + user + ":x"); ok = false; break;
        }
        if (kind == 9) { keep = false; }
        op("peer %d request %s kind %d user %.200s", k, t.c_str(), kind, user.c_str());
        if (lib) {
          if (!cl || choose(st, 3) == 1) cl = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
          cl->set_keep_alive(keep);
          if (kind == 2) { cl = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); cl->set_keep_alive(keep); }
          else { size_t q = cred.find(':'); cl->set_authinfo(cred.substr(0, q), cred.substr(q + 1)); }
          Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 4)));
          Out o = call(*cl, "who", p);
          if (ok) CHECK(o.ok() && o.value().get_string() == t + "|" + expect, "refused-good", "good credentials of %s: %s", user.c_str(), o.str().c_str());
          else if (kind == 15) CHECK(!o.ok(), "not-unauthorized", "the plugin raised an exception, the call got %s", o.str().c_str());
          else CHECK(o.kind == Out::HTTP && o.code == 401, "not-unauthorized", "bad credentials kind %d got %s", kind, o.str().c_str());
        } else {
          if (c.fd >= 0 && (c.eof || c.err)) c.close();
          if (c.fd < 0) { c = Raw(); if (!c.connect(SRV, PORT)) violation("connect", "peer cannot connect"); }
          std::string rq = http_request(xml_call("who", xml_str(t) + xml_int((int)choose(st, 4))), hdr.empty() ? "" : rnd_case(st, "authorization") + ": " + hdr + "\r\n", keep);
          if (!c.send_cut(rq, rnd_cuts(st, rq.size(), 3), 0, st)) violation("connection-lost", "connection lost while sending");
          HttpMsg m = c.read_http(1000 * SEC);
          CHECK(m.ok, "no-answer", "request %s kind %d got no answer", t.c_str(), kind);
          if (kind == 15) { bool f; int code; std::string text; CHECK(m.status != 200 || (parse_response(m.body, f, code, text) && f), "not-unauthorized", "the plugin raised an exception, the answer was '%s'", m.body.substr(0, 200).c_str()); }
          else if (ok) {
            bool f; int code; std::string text;
            CHECK(m.status == 200 && parse_response(m.body, f, code, text) && !f && text == t + "|" + expect, "refused-good", "good credentials of '%s' kind %d: status %d '%s'", user.c_str(), kind, m.status, m.body.substr(0, 300).c_str());
          } else CHECK(m.status == 401, "not-unauthorized", "bad credentials kind %d answered with status %d '%s'", kind, m.status, m.body.substr(0, 200).c_str());
          if (!keep || !ok) { if (c.wait_close(ok ? 1000 * SEC : 50 * MS)) c.close(); }
        }
        int n = seen.count(t) ? seen[t].first : 0;
        CHECK(n == (ok ? 1 : 0), ok ? "executions" : "ran-unauthorized", "request %s kind %d: method ran %d times", t.c_str(), kind, n);
        if (n) CHECK(seen[t].second == expect, "wrong-user", "request %s by '%s' ran as '%s'", t.c_str(), expect.c_str(), seen[t].second.c_str());
      }
    }, peer_ip(k), false));
  CHECK(join(ids, 100000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("auth");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  }
  sv.destroy();
}

// ---- R12 ------------------------------------------------------------------------
WORLD(R12, context, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  int pool = range(S_CFG, 0, 3), peers = range(S_CFG, 1, 4), nreq = range(S_CFG, 1, 5);
  bool fat = (knobs.seg_kind == 0 || knobs.seg_kind == 4) && knobs.short_recv_permille < 300 && choose(S_CFG, 4) == 1;   // long header sections
  draw_together(pool); ServerNode sv(pool);
  auto body = [](ix::Method* m, const Param_list& p, Value& r) {
    auto snap = [&] {
      std::string s = m->name() + "|" + m->peer_addr().get_host_name() + ":" + std::to_string(m->peer_addr().get_port()) + "|";
      for (auto i = m->xheaders().begin(); i != m->xheaders().end(); ++i) s += i->first + "=" + i->second + ";";
      return s; };
    std::string a = snap();
    int d = p.at(1).get_int(); if (d) sim::sleep(d * MS);
    if (snap() != a) violation("context-changed", "the context changed while the method ran: %s vs %s", a.c_str(), snap().c_str());
    r = p.at(0).get_string() + "|" + a;
  };
  for (const char* n : {"m0", "m1", "m2.sub"}) sv.add(n, body);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < peers; ++k)
    ids.push_back(spawn("peer" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; Raw c; bool lib = choose(st, 2);
      static const char* names[] = {"m0", "m1", "m2.sub"};
      std::unique_ptr<ix::Client_base> cl; std::map<std::string, std::string> perm;
      size_t nconn = 0;
      for (int i = 0; i < nreq; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i), name = names[choose(st, 3)];
        std::map<std::string, std::string> xh;
        bool keep = choose(st, 3) != 0;
        int nh = (int)choose(st, 4);
        for (int j = 0; j < nh; ++j) xh["x-" + std::string(1, (char)('a' + choose(st, 5))) + (choose(st, 4) == 1 ? std::string(choose(st, 60), (char)('a' + choose(st, 5))) + (choose(st, 2) ? "-z" : "") : "")] = "v" + std::to_string(k) + "." + std::to_string(i) + "." + std::to_string(j) + (choose(st, 4) == 1 ? ":http://h/a b?c=d" : "");
        static const char* odd[] = {"", "a,b; c=d", "gr\xc3\xbc\xc3\x9f", ":", "a\tb", "0", "close", "text/html"};
        if (choose(st, 5) == 1) xh[choose(st, 2) ? "x-odd" : "x-content-length"] = odd[choose(st, 8)];
        if (fat && choose(st, 3) == 1) { if (choose(st, 2)) xh["x-fat"] = std::string(choose(st, 70000), 'q') + "e"; else for (int j = 0, n = (int)choose(st, 400); j < n; ++j) xh["x-n" + std::to_string(j)] = "m" + std::to_string(j); probe("long_header"); }
        std::string got, exp; int d = (int)choose(st, 4);
        if (lib) {
          if (!cl) { cl = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); }
          cl->set_keep_alive(keep);
          if (choose(st, 3) == 1) {
            perm.clear(); int np = (int)choose(st, 3);
            for (int j = 0; j < np; ++j) perm["x-" + std::string(1, (char)('d' + choose(st, 4)))] = "p" + std::to_string(k) + "." + std::to_string(i);
            ix::XHeaders h; h = perm; cl->set_xheaders(h);
          }
          ix::XHeaders h; std::map<std::string, std::string> up; for (auto& x : xh) up[choose(st, 2) ? rnd_case(st, x.first) : x.first] = x.second;
          h = up;
          Param_list p; p.push_back(Value(t)); p.push_back(Value(d));
          op("client %d call %s %s with %zu own and %zu fixed headers", k, t.c_str(), name.c_str(), xh.size(), perm.size());
          Out o = call(*cl, name, p, xh.empty() && choose(st, 2) ? nullptr : &h);
          CHECK(o.ok(), "failed", "call %s ended with %s", t.c_str(), o.str().c_str());
          got = o.value().get_string();
          for (auto& x : perm) if (!xh.count(x.first)) xh[x.first] = x.second;
        } else {
          if (c.fd < 0) { c = Raw(); if (!c.connect(SRV, PORT)) violation("connect", "cannot connect"); ++nconn; }
          std::string ex; for (auto& x : xh) ex += rnd_case(st, x.first) + ": " + x.second + "\r\n";
          if (choose(st, 3) == 1) ex += "Y-other: zzz\r\n";
          std::string rq = http_request(xml_call(name, xml_str(t) + xml_int(d)), ex, keep);
          op("peer %d request %s %s with %zu headers", k, t.c_str(), name.c_str(), xh.size());
          if (!c.send_cut(rq, rnd_cuts(st, rq.size(), 2), 0, st)) violation("connection-lost", "connection lost");
          HttpMsg m = c.read_http(1000 * SEC); bool f; int code;
          CHECK(m.ok && m.status == 200 && parse_response(m.body, f, code, got) && !f, "failed", "request %s: status %d '%s'", t.c_str(), m.status, m.body.substr(0, 200).c_str());
          if (!keep) { CHECK(c.wait_close(1000 * SEC), "not-closed", "connection not closed"); c.close(); }
        }
        // the address: host is ours, port is that of the latest connection we made
        int port = 0; for (auto& ci : conn_log()) if (ci.cip == peer_ip(k) && ci.sport == PORT) port = ci.cport;
        exp = t + "|" + name + "|" + ipstr(peer_ip(k)) + ":" + std::to_string(port) + "|"; for (auto& x : xh) exp += x.first + "=" + x.second + ";";
        CHECK(got == exp, "wrong-context", "method saw '%s', the request was '%s'", got.c_str(), exp.c_str());
      }
    }, peer_ip(k), false));
  CHECK(join(ids, 100000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("context");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R13 ------------------------------------------------------------------------
WORLD(R13, limit, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4); if (wire_tls) draw_role(true);
  int pool = range(S_CFG, 0, 2), peers = range(S_CFG, 1, 3), nreq = range(S_CFG, 1, 5);
  static const size_t lims[] = {600, 1000, 4096, 65536, 65537, 70000, 131072};
  int rounds = choose(S_CFG, 3) == 1 ? 2 : 1;      // the limit may change between two times of serving, under connections that stay
  Ledger lg; ServerNode sv(pool); lg.install(sv); std::vector<Raw> conns(peers);
  for (int round = 0; round < rounds; ++round) {
  size_t L = lims[choose(S_CFG, 7)] + (choose(S_CFG, 3) == 1 ? choose(S_CFG, 50) : 0);
  sv.srv->set_max_request_sz(L);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < peers; ++k)
    ids.push_back(spawn("peer" + std::to_string(k), [&, k, L, round] {
      int st = S_WORK + 1 + k; Raw& c = conns[k]; if (round && c.fd >= 0) probe("kept_over_stop");
      for (int i = 0; i < nreq; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(round) + "." + std::to_string(i);
        bool keep = choose(st, 4) != 0; int kind = (int)choose(st, 8);
        // sizes around the limit, split arbitrarily between header and body
        int delta = choose(st, 2) ? range(st, -3, 3) : (int)choose(st, 400) - 250;
        if (choose(st, 6) == 1) delta = (int)(choose(st, 3) * L);
        size_t total = (size_t)std::max<long>(450, (long)L + delta);
        std::string b = run_call(t), probe0 = http_request(b, "x-p: \r\n", keep);
        std::string rq;
        size_t room = total > probe0.size() ? total - probe0.size() : 0, inhdr = choose(st, 2) ? choose(st, (uint32_t)std::min<size_t>(room, 3000) + 1) : 0;
        for (int it = 0; it < 4; ++it) {      // the length field's own width varies
          size_t inbody = room > inhdr ? room - inhdr : 0;
          rq = http_request(b + std::string(inbody, ' '), "x-p: " + std::string(inhdr, 'h') + "\r\n", keep);
          if (rq.size() == total || room == 0) break;
          room += total - rq.size();
        }
        bool cut = kind == 7;
        bool over = rq.size() >= L;
        op("peer %d request %s: %zu bytes, limit %zu%s", k, t.c_str(), rq.size(), L, cut ? ", closed before the end" : "");
        if (c.fd >= 0 && (c.eof || c.err)) c.close();
        if (c.fd < 0) { c = Raw(); if (!c.connect(SRV, PORT)) violation("connect", "cannot connect"); }
        std::string snd = cut ? rq.substr(0, rq.size() - 1 - choose(st, (uint32_t)std::min<size_t>(rq.size() - 1, 300))) : rq;
        bool sent = c.send_cut(snd, rnd_cuts(st, snd.size(), choose(st, 2) ? 5 : 0), choose(st, 2) ? 5 * MS : 0, st);
        if (cut) {
          fault(F_PEER_CLOSE);
          if (choose(st, 2)) c.half_close(); else c.close();
          sim::sleep(SEC);
          CHECK(lg.ran(t) == 0, "ran-incomplete", "incomplete request %s was executed", t.c_str());
          if (c.fd >= 0) c.close();
          continue;
        }
        CHECK(sent || over, "connection-lost", "connection lost while sending a request below the limit");
        HttpMsg m = c.read_http(1000 * SEC);
        if (over) {
          probe("over_limit");
          // the server may close while the rest is still on its way; then the answer can be lost to a reset
          CHECK((m.ok && m.status == 413) || (!m.ok && (c.err || !sent) && m.raw.size() < 30), "not-refused", "request of %zu bytes with limit %zu: status %d, '%s'", rq.size(), L, m.status, m.raw.substr(0, 200).c_str());
          if (m.ok) probe("got_413");
          CHECK(lg.ran(t) == 0, "ran-too-large", "request of %zu bytes executed with limit %zu", rq.size(), L);
          c.close();
        } else {
          probe("under_limit");
          CHECK(m.ok && m.status == 200, "refused-small", "request of %zu bytes refused with limit %zu: status %d '%s'", rq.size(), L, m.status, m.raw.substr(0, 100).c_str());
          CHECK(lg.ran(t) == 1, "executions", "request %s ran %d times", t.c_str(), lg.ran(t));
          if (!keep) { CHECK(c.wait_close(1000 * SEC), "not-closed", "connection not closed"); c.close(); }
        }
      }
    }, peer_ip(k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("size limit");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  }
  for (auto& c : conns) if (c.fd >= 0) c.close();
  sv.destroy();
}
// A peer that announces a small body and keeps sending, or announces a huge one: the server must stop taking bytes.
WORLD(R13, flood, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  knobs.rcvbuf = std::min<size_t>(knobs.rcvbuf, 65536);
  int pool = range(S_CFG, 0, 2); size_t L = 1000 + choose(S_CFG, 60000);
  Ledger lg; ServerNode sv(pool); lg.install(sv); sv.srv->set_max_request_sz(L);
  sv.start();
  int kind = (int)choose(S_WORK, 4); size_t volume = L * 4 + 400000;
  int id = spawn("flood", [&] {
    int st = S_WORK + 1; Raw c; if (!c.connect(SRV, PORT)) violation("connect", "cannot connect");
    std::string head;
    if (kind == 0) head = "POST / HTTP/1.0\r\ncontent-length: " + std::to_string(volume) + "\r\n\r\n";
    else if (kind == 1) head = "POST / HTTP/1.0\r\nx-long: ";                          // endless header
    else head = "POST / HTTP/1.0\r\ncontent-length: " + std::to_string(L * 2) + "\r\n\r\n";
    if (kind == 3) {                                   // a complete request, if its length is not taken for what it is
      static const uint64_t wrap[] = {1ull << 31, 1ull << 32, 1ull << 16, 1ull << 20, (1ull << 32) - (1 << 20), 1ull << 63}; std::string b = run_call("whole");
      head = "POST / HTTP/1.0\r\ncontent-length: " + std::to_string(wrap[choose(st, 6)] + b.size()) + "\r\n\r\n" + b;
    }
    op("flood kind %d limit %zu", kind, L);
    bool ok = c.send(head); size_t sent = head.size();
    while (ok && sent < volume) { size_t n = 1 + choose(st, 8000); ok = c.send(std::string(n, 'f')); sent += n; if (c.recv_some(0)) {} if (c.eof || c.err) break; }
    size_t taken = rx_taken_by_peer(c.fd);
    HttpMsg m = c.read_http(100 * SEC);
    CHECK(taken < L + volume / 2, "keeps-buffering", "server took %zu bytes of a request with limit %zu", taken, L);
    CHECK((m.ok && (m.status == 413 || (kind == 3 && m.status == 400))) || c.err || c.eof, "not-refused", "flood not refused: status %d", m.status);
    CHECK(lg.total == 0, "ran-too-large", "flood was executed");
  }, peer_ip(0), true);
  CHECK(join({id}, 100000 * SEC), "hang", "flood is neither refused nor taken");
  sv.expect_alive("flood");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R14 ------------------------------------------------------------------------
WORLD(R14, keepalive, 25)
{
  swarm_sched(); swarm_net(); draw_tls(4); if (wire_tls) draw_role(true);
  int pool = range(S_CFG, 0, 3), peers = range(S_CFG, 1, 3), nreq = range(S_CFG, 1, 6);
  Ledger lg; ServerNode sv(pool); lg.install(sv);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < peers; ++k)
    ids.push_back(spawn("peer" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; Raw c;
      for (int i = 0; i < nreq; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        bool keep = choose(st, 3) != 0; int style = (int)choose(st, 3);
        int sz = choose(st, 3) == 1 ? 2 + (int)choose(st, 300000) : 0;
        if (knobs.short_send_permille > 400 && sz > 60000) sz = 60000;
        int mode = choose(st, 6) == 1 ? 1 : sz;
        if (c.fd < 0) { c = Raw(); if (!c.connect(SRV, PORT)) violation("connect", "cannot connect"); if (choose(st, 2)) fd_set_buf(c.fd, 0, 1000 + choose(st, 8000)); }
        if (!keep && choose(st, 5) == 1) {              // one that is refused: answered completely as well, then closed
          static const char* bad[] = {"GET / HTTP/1.0\r\n\r\n", "POST / HTTP/1.1\r\n\r\n", "POST / HTTP/1.0\r\nContent-Length: x\r\n\r\n", "POST / HTTP/1.0\r\nContent-Length: 4\r\nExpect: x\r\n\r\n"};
          static const int code[] = {405, 411, 400, 417}; int b = (int)choose(st, 4); op("peer %d refused request %d", k, b);
          if (!c.send(bad[b])) violation("connection-lost", "connection lost before request %s was sent", t.c_str());
          HttpMsg m = c.read_http(1000 * SEC);
          CHECK(m.ok && m.status == code[b], "incomplete", "request '%.20s' got status %d, expected %d (eof %d err %d)", bad[b], m.status, code[b], c.eof, c.err);
          CHECK(c.wait_close(1000 * SEC), "not-closed", "connection not closed after refused request '%.20s'", bad[b]);
          CHECK(c.eof && c.buf.empty(), "unclean-close", "connection ended with a reset or extra bytes after refused request '%.20s'", bad[b]);
          c.close(); continue;
        }
        std::string rq = http_request(run_call(t, (int)choose(st, 3), mode), "", keep);
        if (keep && style) { size_t p = rq.find("connection: keep-alive"); rq.replace(p, 22, rnd_case(st, "connection") + ": " + rnd_case(st, "keep-alive")); }
        if (!keep && style == 1) { size_t p = rq.find("connection: close\r\n"); rq.erase(p, 19); }     // no connection header at all
        if (!keep && style == 2) { size_t p = rq.find("connection: close\r\n"); rq.replace(p, 19, "connection: te\r\n"); }     // or one that asks for something else
        op("peer %d request %s answer %d keep-alive %d", k, t.c_str(), sz, keep);
        if (!c.send_cut(rq, rnd_cuts(st, rq.size(), 2), 0, st)) violation("connection-lost", "connection lost before request %s was sent", t.c_str());
        if (choose(st, 3) == 1) { fault(F_PEER_STALL); sim::sleep((Time)choose(st, 3000) * MS); }             // slow reader
        HttpMsg m = c.read_http(100000 * SEC);
        CHECK(m.ok, "incomplete", "request %s: answer not complete (%zu bytes, eof %d err %d)", t.c_str(), m.raw.size(), c.eof, c.err);
        bool f; int code; std::string text;
        CHECK(m.status == 200 && parse_response(m.body, f, code, text), "wrong", "request %s: status %d", t.c_str(), m.status);
        std::string want = mode == 1 ? "F:" + t : "A:" + t + (mode > 1 ? std::string(mode, 'b') : "");
        CHECK(text == want, "wrong-answer", "request %s: wrong answer '%s' of %zu bytes, expected %zu", t.c_str(), text.substr(0, 60).c_str(), text.size(), want.size());
        CHECK(m.h.count("connection") && lower(m.h["connection"]) == (keep ? "keep-alive" : "close"), "wrong-header", "request %s keep-alive %d: answer says '%s'", t.c_str(), keep, m.h["connection"].c_str());
        if (keep) {
          if (choose(st, 2)) { sim::sleep((Time)choose(st, 100) * SEC); c.recv_some(0); }
          CHECK(!c.eof && !c.err && c.buf.empty(), "closed-early", "connection asked to stay alive was %s after request %s", c.buf.empty() ? "closed" : "sent extra bytes", t.c_str());
        } else {
          CHECK(c.wait_close(1000 * SEC), "not-closed", "connection not closed after request %s", t.c_str());
          CHECK(c.eof && c.buf.empty(), "unclean-close", "connection ended with a reset or extra bytes after request %s", t.c_str());
          c.close();
        }
      }
    }, peer_ip(k), true));
  CHECK(join(ids, 1000000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("keep-alive");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}
WORLD(R14, reuse, 25)     // the client side
{
  swarm_sched(); swarm_net(); draw_tls(4);
  int pool = range(S_CFG, 0, 2), ncl = range(S_CFG, 1, 3), ncalls = range(S_CFG, 2, 7);
  Ledger lg; ServerNode sv(pool); lg.install(sv);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < ncl; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
      bool ka = choose(st, 2), have = false; c->set_keep_alive(ka);
      size_t want = 0;
      for (int i = 0; i < ncalls; ++i) {
        if (choose(st, 5) == 1) { ka = !ka; c->set_keep_alive(ka); if (!ka) have = false; }
        if (choose(st, 4) == 1) sim::sleep((Time)choose(st, 1000) * SEC);
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        int mode = choose(st, 5) == 1 ? 1 : choose(st, 6) == 1 ? 2 + (int)choose(st, 100000) : 0;
        Param_list p; p.push_back(Value(t)); p.push_back(Value(0)); p.push_back(Value(mode));
        Out o = call(*c, "run", p);
        op("client %d keep-alive %d call %s -> %s", k, ka, t.c_str(), o.str().substr(0, 40).c_str());
        CHECK(o.response(), "failed", "call %s ended with %s", t.c_str(), o.str().c_str());
        if (!have) ++want;
        have = ka;
        size_t n = 0; for (auto& ci : conn_log()) if (ci.cip == peer_ip(k)) ++n;
        CHECK(n == want, "connections", "client %d made %zu connections for %d calls, expected %zu", k, n, i + 1, want);
      }
    }, peer_ip(k)));
  CHECK(join(ids, 1000000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
  sv.expect_alive("reuse");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}

// ---- R16 ------------------------------------------------------------------------
namespace {
struct Wall: iqnet::Firewall_base {
  std::set<std::string> deny; std::string msg; bool custom;
  bool grant(const iqnet::Inet_addr& a) { return !deny.count(a.get_host_name()); }
  std::string message() { return custom ? msg : iqnet::Firewall_base::message(); }
};
}
WORLD(R16, firewall, 1)
{
  swarm_sched(); swarm_net(); draw_tls(4);
  int pool = range(S_CFG, 0, 2), nd = range(S_CFG, 1, 4), na = range(S_CFG, 1, 3), rounds = range(S_CFG, 1, 3), cycles = choose(S_CFG, 3) == 1 ? range(S_CFG, 2, 3) : 1;
  Wall* w = new Wall; w->custom = choose(S_CFG, 3) != 0;
  int mk = (int)choose(S_CFG, 3);
  w->msg = mk == 0 ? "" : mk == 1 ? "HTTP/1.1 403 Go away\r\ncontent-length: 0\r\n\r\n" : std::string("BYE ") + std::string(choose(S_CFG, 1500), 'x') + "\r\n";
  std::string msg = w->message();
  for (int k = 0; k < nd; ++k) w->deny.insert(ipstr(peer_ip(20 + k)));
  Ledger lg; ServerNode sv(pool); lg.install(sv); sv.srv->set_firewall(w);
  bool may_flip = choose(S_CFG, 2); std::set<int> fixed;
  for (int cy = 0; cy < cycles; ++cy) {
  if (cy) op("served again, cycle %d", cy);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < nd; ++k)
    ids.push_back(spawn("refused" + std::to_string(k), [&, k, cy] {
      int st = S_WORK + 10 + k; std::string me = ipstr(peer_ip(20 + k));
      for (int i = 0; i < rounds; ++i) {
        // the verdict about a peer may change from one of its connections to the next
        bool allow = false; std::string t = "." + std::to_string(k) + "." + std::to_string(cy) + "." + std::to_string(i);
        { NoPreempt np; if (may_flip && !fixed.count(k)) { allow = choose(st, 2); if (allow) w->deny.erase(me); else w->deny.insert(me); } }
        Raw c; int kind = (int)choose(st, 6);
        if (allow) {
          if (!c.connect(SRV, PORT)) violation("connect", "an allowed peer cannot connect");
          c.send(http_request(run_call("a" + t), "", false));
          HttpMsg m = c.read_http(1000 * SEC);
          op("peer %d, now allowed -> %d", k, m.status);
          CHECK(m.ok && m.status == 200 && lg.ran("a" + t) == 1, "allowed-hurt", "request of a peer that is now allowed: status %d", m.status);
          c.wait_close(1000 * SEC); c.close();
          continue;
        }
        std::string rq = http_request(run_call("d" + t), "", choose(st, 2));
        op("refused peer %d kind %d", k, kind);
        if (kind == 2 || kind == 4 || kind == 5) { NoPreempt np; fixed.insert(k); }      // it may be looked at later than the peer knows
        if (kind == 5) { c.connect_plain(SRV, PORT, 1 + choose(st, 3) * MS); c.reset(); fault(F_PEER_RESET); continue; }
        if (!c.connect_plain(SRV, PORT)) violation("connect", "cannot connect");
        if (kind == 1) { c.send(rq); fault(F_PEER_GARBAGE); }
        if (kind == 2) { fault(F_PEER_RESET); c.reset(); continue; }
        if (kind == 3) { c.half_close(); fault(F_HALF_CLOSE); }
        if (kind == 4) { c.send(rq); fault(F_PEER_CLOSE); c.close(); continue; }
        CHECK(c.wait_close(1000 * SEC), "not-closed", "refused peer is not disconnected (kind %d, got '%s')", kind, c.buf.substr(0, 100).c_str());
        // data sent to a closed socket may turn the close into a reset and cut the message short
        if (kind == 1) CHECK(starts(msg, c.buf), "wrong-message", "refused peer got '%s' instead of '%s'", c.buf.substr(0, 200).c_str(), msg.substr(0, 100).c_str());
        else CHECK(c.buf == msg, "wrong-message", "refused peer got '%s' (%zu bytes) instead of '%s' (%zu bytes)", c.buf.substr(0, 100).c_str(), c.buf.size(), msg.substr(0, 100).c_str(), msg.size());
        c.close();
        sim::sleep((Time)choose(st, 20) * MS);
      }
    }, peer_ip(20 + k), true));
  for (int k = 0; k < na; ++k)
    ids.push_back(spawn("client" + std::to_string(k), [&, k, cy] {
      int st = S_WORK + 1 + k;
      auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
      for (int i = 0; i < rounds + 1; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(cy) + "." + std::to_string(i);
        Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 3))); p.push_back(Value(0));
        Out o = call(*c, "run", p);
        CHECK(o.ok() && o.value().get_string() == "A:" + t, "allowed-hurt", "call of an allowed peer ended with %s", o.str().c_str());
        sim::sleep((Time)choose(st, 20) * MS);
      }
    }, peer_ip(k)));
  CHECK(join(ids, 100000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("firewall");
  sim::sleep(10 * SEC);
  for (auto& r : lg.runs) CHECK(r.first[0] != 'd', "refused-ran", "request of a refused peer was executed");
  sv.expect_alive("firewall");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  }
  sv.destroy();
}

// ---- R17 ------------------------------------------------------------------------
WORLD(R17, expect, 1)
{
  swarm_sched(); swarm_net(); draw_tls(3); if (wire_tls) draw_role(true);
  int pool = range(S_CFG, 0, 3), peers = range(S_CFG, 1, 3), nreq = range(S_CFG, 1, 5);
  Ledger lg; ServerNode sv(pool); lg.install(sv);
  sv.start();
  std::vector<int> ids;
  for (int k = 0; k < peers; ++k)
    ids.push_back(spawn("peer" + std::to_string(k), [&, k] {
      int st = S_WORK + 1 + k; Raw c;
      for (int i = 0; i < nreq; ++i) {
        std::string t = "t" + std::to_string(k) + "." + std::to_string(i);
        bool keep = choose(st, 4) != 0, exp = choose(st, 4) != 0; int when = exp ? (int)choose(st, 6) : 0;
        if (c.fd < 0) { c = Raw(); if (!c.connect(SRV, PORT)) violation("connect", "cannot connect"); }
        std::string body = run_call(t, (int)choose(st, 3), choose(st, 5) == 1 ? 1 : 0) + std::string(choose(st, 3) == 1 ? choose(st, 5000) : 0, ' ');
        std::string rq = http_request(body, exp ? rnd_case(st, "expect") + (choose(st, 2) ? ": 100-continue\r\n" : ": 100-Continue\r\n") : "", keep);
        size_t hl = rq.size() - body.size();
        std::string head = rq.substr(0, hl);
        if (when == 5) { size_t n = choose(st, (uint32_t)body.size()); head += body.substr(0, n); body.erase(0, n); when = 0; }   // part of the body comes along
        op("peer %d request %s expect %d body mode %d keep-alive %d", k, t.c_str(), exp, when, keep);
        bool must_invite = false, may_invite = exp;
        if (!exp) c.send_cut(rq, rnd_cuts(st, rq.size(), 3), 0, st);
        else if (when == 0) {                           // wait for the invitation, as the protocol intends
          c.send_cut(head, rnd_cuts(st, head.size(), 3), 0, st); must_invite = true;
        } else if (when == 1) {                         // do not wait
          c.send_cut(rq, rnd_cuts(st, rq.size(), 3), choose(st, 2) ? 10 * MS : 0, st);
        } else if (when == 2) {                         // header, some delay, body
          c.send(head); sim::sleep((Time)choose(st, 30) * MS); c.send_cut(body, rnd_cuts(st, body.size(), 2), MS, st);
        } else if (when == 3) {                         // header and a part of the body, then the rest
          size_t n = hl + choose(st, (uint32_t)body.size()); c.send(rq.substr(0, n)); sim::sleep((Time)choose(st, 30) * MS); c.send(rq.substr(n));
        } else {                                        // header, wait for invitation while trickling the body
          c.send(head); size_t n = 1 + choose(st, (uint32_t)body.size() - 1); c.send(body.substr(0, n)); sim::sleep((Time)choose(st, 5) * MS); c.send(body.substr(n));
        }
        int invited = 0; HttpMsg m;
        if (must_invite) {
          m = c.read_http(1000 * SEC);
          CHECK(m.ok && m.status == 100, "not-invited", "request %s waits for permission; got %s status %d '%s'", t.c_str(), m.ok ? "answer" : "nothing,", m.status, m.raw.substr(0, 100).c_str());
          ++invited;
          if (choose(st, 3) == 1) sim::sleep((Time)choose(st, 30) * MS);
          c.send_cut(body, rnd_cuts(st, body.size(), 3), choose(st, 2) ? 5 * MS : 0, st);
        }
        m = c.read_http(1000 * SEC);
        while (m.ok && m.status == 100) { ++invited; m = c.read_http(1000 * SEC); }
        CHECK(m.ok, "no-answer", "request %s got no final answer (%d invitations, rest '%s', eof %d err %d)", t.c_str(), invited, m.raw.substr(0, 100).c_str(), c.eof, c.err);
        CHECK(invited <= 1 && (may_invite || !invited), "invitations", "request %s got %d invitations", t.c_str(), invited);
        bool f; int code; std::string text;
        CHECK(m.status == 200 && parse_response(m.body, f, code, text) && text == (f ? "F:" : "A:") + t, "wrong-answer", "request %s: status %d '%s'", t.c_str(), m.status, m.raw.substr(0, 300).c_str());
        CHECK(lg.ran(t) == 1, "executions", "request %s ran %d times", t.c_str(), lg.ran(t));
        if (invited) probe("invited");
        if (keep) { CHECK(!c.eof && c.buf.empty(), "closed-early", "keep-alive connection closed or extra bytes after %s", t.c_str()); }
        else { CHECK(c.wait_close(1000 * SEC) && c.buf.empty(), "not-closed", "connection not closed cleanly after %s", t.c_str()); c.close(); }
      }
    }, peer_ip(k), true));
  CHECK(join(ids, 100000 * SEC), "hang", "peers wait forever: %s", unfinished(ids).c_str());
  sv.expect_alive("expect");
  nontrivial();
  CHECK(sv.stop(), "no-stop", "server does not stop");
  sv.destroy();
}
