#include "lab.h"
#include <sanitizer/lsan_interface.h>
#include <arpa/inet.h>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <libxml/parser.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>

namespace lab {
void tls_warm_up();
bool wire_tls = false;
bool draw_tls(int n) { return wire_tls = choose(S_CFG, n) == 1; }

Time together = 0;
struct FnMethod: ix::Method {
  MethodFn fn;
  explicit FnMethod(const MethodFn& f): fn(f) {}
  void execute(const Param_list& p, Value& r)
  {
    struct End { ~End() { if (together) sim::sleep(together - sim::now() % together); } } end;
    fn(this, p, r);
  }
};
struct FnFactory: ix::Method_factory_base {
  MethodFn fn;
  explicit FnFactory(const MethodFn& f): fn(f) {}
  ix::Method* create() { return new FnMethod(fn); }
};

ServerNode::ServerNode(int n, bool tls, int p): nthreads(n), https(tls), port(p), host(sim::self()->host)
{
  if (n) { pool = new ix::Pool_executor_factory(n); ef.reset(pool); }
  else ef.reset(new ix::Serial_executor_factory);
  if (tls) srv.reset(new ix::Https_server(iqnet::Inet_addr(p), ef.get()));
  else srv.reset(new ix::Http_server(iqnet::Inet_addr(p), ef.get()));
}
void ServerNode::add(const std::string& name, MethodFn fn) { srv->register_method(name, new FnFactory(fn)); }
void ServerNode::start(bool wait_listen)
{
  returned = threw = false; ++cycles;
  tid = spawn("server" + std::to_string(port), [this] {
    try { srv->work(); returned = true; log("work returned"); }
    catch (const std::exception& e) { threw = true; what = e.what(); log("work threw %s", e.what()); }
    catch (...) { threw = true; what = "unknown exception"; }
  }, host);
  if (wait_listen) wait_until([this] { return has_listener(host, port) || finished(tid); }, 100 * SEC, "listening");
}
void ServerNode::expect_alive(const char* when)
{
  if (threw) violation("server-died", "the serving call threw '%s' (%s)", what.c_str(), when);
  if (returned) violation("server-stopped", "the serving call returned without a stop request (%s)", when);
}
bool ServerNode::stop(Time limit)
{
  srv->set_exit_flag();
  return wait_until([this] { return finished(tid); }, limit, "server stop");
}
void ServerNode::destroy()
{
  ef.reset(); pool = nullptr;
  srv.reset();
}

std::string Out::str() const
{
  static const char* k[] = {"ok", "fault", "http-error", "timeout", "network-error", "other-error"};
  std::string s = k[kind];
  if (kind == OK) s += " " + vstr(*v, 120); else s += " " + std::to_string(code) + " " + text.substr(0, 200);
  return s;
}
std::unique_ptr<ix::Client_base> make_client(bool https, const iqnet::Inet_addr& a, const std::string& uri, const std::string& vhost)
{
  if (https) return std::unique_ptr<ix::Client_base>(new ix::Client<ix::Https_client_connection>(a, uri, vhost));
  return std::unique_ptr<ix::Client_base>(new ix::Client<ix::Http_client_connection>(a, uri, vhost));
}
std::unique_ptr<ix::Client_base> make_client(const iqnet::Inet_addr& a, const std::string& uri, const std::string& vhost) { return make_client(wire_tls, a, uri, vhost); }
Out call(ix::Client_base& c, const std::string& m, const Param_list& p, const ix::XHeaders* xh)
{
  Out o; o.began = now(); out->calls++;
  try {
    ix::Response r = xh ? c.execute(m, p, *xh) : c.execute(m, p);
    if (r.is_fault()) { o.kind = Out::FAULT; o.code = r.fault_code(); o.text = r.fault_string(); }
    else { o.kind = Out::OK; o.v = std::make_shared<Value>(r.value()); }
  }
  catch (const ix::Client_timeout& e) { o.kind = Out::TIMEOUT; o.text = e.what(); }
  catch (const ix::http::Error_response& e) { o.kind = Out::HTTP; o.text = e.what(); if (e.response_header()) o.code = e.response_header()->code(); }
  catch (const iqnet::network_error& e) { o.kind = Out::NET; o.text = e.what(); }
  catch (const std::exception& e) { o.kind = Out::OTHER; o.text = e.what(); }
  o.ended = now();
  return o;
}

// ---- values ---------------------------------------------------------------------
bool veq(const Value& a, const Value& b)
{
  if (a.type_name() != b.type_name()) return false;
  if (a.is_nil()) return true;
  if (a.is_int()) return a.get_int() == b.get_int();
  if (a.is_int64()) return a.get_int64() == b.get_int64();
  if (a.is_bool()) return a.get_bool() == b.get_bool();
  if (a.is_double()) return a.get_double() == b.get_double();
  if (a.is_string()) return a.get_string() == b.get_string();
  if (a.is_binary()) return a.get_binary().get_data() == b.get_binary().get_data();
  if (a.is_datetime()) return a.get_datetime().to_string() == b.get_datetime().to_string();
  if (a.is_array()) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!veq(a[(int)i], b[(int)i])) return false;
    return true;
  }
  if (a.is_struct()) {
    const ix::Struct& x = a.the_struct(); const ix::Struct& y = b.the_struct();
    if (x.size() != y.size()) return false;
    for (auto i = x.begin(); i != x.end(); ++i) { if (!y.has_field(i->first) || !veq(*i->second, y[i->first])) return false; }
    return true;
  }
  return false;
}
static std::string clip(std::string s, size_t m) { if (s.size() > m) s = s.substr(0, m / 2) + "..(" + std::to_string(s.size()) + ").." + s.substr(s.size() - m / 4); return s; }
std::string vstr(const Value& v, size_t m)
{
  std::string s;
  if (v.is_nil()) s = "nil";
  else if (v.is_int()) s = std::to_string(v.get_int());
  else if (v.is_int64()) s = std::to_string(v.get_int64()) + "L";
  else if (v.is_bool()) s = v.get_bool() ? "true" : "false";
  else if (v.is_double()) { char b[40]; snprintf(b, 40, "%.17g", v.get_double()); s = b; }
  else if (v.is_string()) s = "'" + clip(v.get_string(), 60) + "'";
  else if (v.is_binary()) s = "bin:" + clip(v.get_binary().get_base64(), 40);
  else if (v.is_datetime()) s = v.get_datetime().to_string();
  else if (v.is_array()) { s = "["; for (size_t i = 0; i < v.size() && s.size() < m; ++i) s += (i ? "," : "") + vstr(v[(int)i], m); s += "]"; }
  else if (v.is_struct()) { s = "{"; for (auto i = v.the_struct().begin(); i != v.the_struct().end() && s.size() < m; ++i) s += clip(i->first, 20) + ":" + vstr(*i->second, m) + ","; s += "}"; }
  return clip(s, m);
}
bool no_blank_text = false;
Value vstruct() { return Value(ix::Struct()); }
std::string rnd_text(int st, size_t n)
{
  static const std::string a = "abcXYZ 0189<>&\"'\n\t./;=%\r-";
  int k = (int)choose(st, 6);
  std::string s;
  if (k == 0) s = rnd_bytes(st, n, choose(st, 4) == 1 ? " \n\t" : "x");
  else if (k == 1) s = rnd_bytes(st, n, a);
  else if (k == 2) { static const char* u[] = {"\xc3\xa9", "\xd0\xb6", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a", "]]>"}; std::string b = rnd_bytes(st, n / 3 + 1, "012345"); for (char c : b) s += u[c - '0']; s += "z"; }
  else if (k == 3) s = rnd_bytes(st, n, "<>&;\"'\r\nq");
  else s = rnd_bytes(st, n, "abcdefghijklmnopqrstuvwxyz0123456789");
  if (no_blank_text && !s.empty() && s.find_first_not_of(" \t\r\n") == std::string::npos) s += "z";
  return s;
}
Value rnd_value(int st, int depth, size_t ms)
{
  int k = (int)choose(st, depth > 0 ? 12 : 9);
  switch (k) {
  case 0: { static const int v[] = {0, -1, 2147483647, -2147483647 - 1, 65536, -32769}; int q = (int)choose(st, 4); return Value(q == 1 ? v[choose(st, 6)] : q ? (int)(choose(st, 0x7fffffff) * (choose(st, 2) ? -1 : 1)) : (int)choose(st, 10)); }
  case 1: return Value(rnd_text(st, choose(st, (uint32_t)ms + 1)));
  case 2: { static const int64_t v[] = {0, -1, INT64_MAX, INT64_MIN, 4294967296ll, 1234567890123ll}; return Value(v[choose(st, 6)]); }
  case 3: return Value(choose(st, 2) == 1);
  case 4: {
    static const double d[] = {0, 1.5, -0.1, 1e300, 3.141592653589793, 1e-300, 123456789.125, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 0.1 + 0.2, 1e15 + 0.3};
    uint32_t q = choose(st, 20); if (q < 12) return Value(d[q]);
    uint64_t bits = (uint64_t)choose(st, 0xffffffff) << 32 | choose(st, 0xffffffff); double x; memcpy(&x, &bits, 8); return Value(std::isfinite(x) ? x : 2.5); }
  case 5: { std::string al; for (int i = 0; i < 256; ++i) al += (char)i; std::unique_ptr<ix::Binary_data> b(ix::Binary_data::from_data(rnd_bytes(st, choose(st, (uint32_t)ms + 1), al))); return Value(*b); }
  case 6: { bool odd = choose(st, 4) == 1; char b[40]; snprintf(b, 40, "%04d%02d%02dT%02d:%02d:%02d", odd ? range(st, 1900, 9999) : range(st, 1970, 2037), range(st, 1, 12), range(st, 1, odd ? 31 : 28), range(st, 0, 23), range(st, 0, 59), range(st, 0, odd ? 61 : 59)); return Value(ix::Date_time(std::string(b))); }
  case 7: return Value(std::string());
  case 8: return Value(ix::Nil());
  case 9: { Value v = Value(ix::Array()); int n = (int)choose(st, 5); for (int i = 0; i < n; ++i) v.push_back(rnd_value(st, depth - 1, ms / 2)); return v; }
  case 10: {                                           // deep, or long
    Value v = rnd_value(st, 0, ms / 2); int n = (int)choose(st, choose(st, 6) == 1 ? 60 : 25);
    if (choose(st, 3) == 1) { Value a = Value(ix::Array()); for (int i = 0; i < 8 * n; ++i) a.push_back(choose(st, 2) ? Value(i) : v); return a; }
    for (int i = 0; i < n; ++i) { Value w = choose(st, 2) ? Value(ix::Array()) : Value(ix::Struct()); if (w.is_array()) w.push_back(v); else w.insert("n", v); v = w; }
    return v; }
  default: { Value v = Value(ix::Struct()); int n = (int)choose(st, 5); for (int i = 0; i < n; ++i) v.insert(choose(st, 8) == 1 ? rnd_text(st, choose(st, choose(st, 8) == 1 ? 5000 : 30)) + "." : "f" + std::to_string(i) + rnd_bytes(st, choose(st, 5), "ab<&_ "), rnd_value(st, depth - 1, ms / 2)); return v; }
  }
}
std::string xml_text(int st, const std::string& s)
{
  std::string e; bool refs = choose(st, 3) == 1;
  for (unsigned char c : s) {
    if (c == '<') e += choose(st, 2) ? "&lt;" : "&#60;";
    else if (c == '&') e += choose(st, 2) ? "&amp;" : "&#x26;";
    else if (c == '>') e += "&gt;";
    else if (c == '\r') e += "&#13;";
    else if (refs && c < 128 && choose(st, 4) == 1) { char b[16]; snprintf(b, 16, choose(st, 2) ? "&#%d;" : "&#x%x;", c); e += b; }
    else e += (char)c;
  }
  return e;
}
std::string xml_gap(int st) { static const char* g[] = {"", "", "", "\n", "  ", "\r\n\t", " \n \n", "<!-- a comment -->"}; return g[choose(st, 8)]; }
std::string xml_value(int st, const Value& v)
{
  std::string b; char t[64];
  if (v.is_nil()) b = choose(st, 2) ? "<nil/>" : "<nil></nil>";
  else if (v.is_int()) { bool i4 = choose(st, 2); b = (i4 ? "<i4>" : "<int>") + std::to_string(v.get_int()) + (i4 ? "</i4>" : "</int>"); }
  else if (v.is_int64()) b = choose(st, 2) ? "<i8>" + std::to_string(v.get_int64()) + "</i8>" : "<ex:i8 xmlns:ex=\"http://ws.apache.org/xmlrpc/namespaces/extensions\">" + std::to_string(v.get_int64()) + "</ex:i8>";
  else if (v.is_bool()) b = v.get_bool() ? "<boolean>1</boolean>" : "<boolean>0</boolean>";
  else if (v.is_double()) { snprintf(t, 64, choose(st, 2) ? "%.17g" : "%.17e", v.get_double()); b = std::string("<double>") + t + "</double>"; }
  else if (v.is_binary()) b = "<base64>" + v.get_binary().get_base64() + "</base64>";
  else if (v.is_datetime()) b = "<dateTime.iso8601>" + v.get_datetime().to_string() + "</dateTime.iso8601>";
  else if (v.is_string()) {
    std::string s = v.get_string();
    if (s.empty()) { static const char* e[] = {"<string></string>", "<string/>", ""}; int q = (int)choose(st, 3); if (q == 2) return choose(st, 2) ? "<value/>" : "<value></value>"; b = e[q]; }
    else if (choose(st, 3) == 1 && s.find_first_not_of(" \t\r\n") != std::string::npos) return "<value>" + xml_text(st, s) + "</value>";
    else b = "<string>" + xml_text(st, s) + "</string>";
  }
  else if (v.is_array()) {
    b = "<array>" + xml_gap(st);
    if (!v.size() && choose(st, 2)) b += "<data/>";
    else { b += "<data>" + xml_gap(st); for (size_t i = 0; i < v.size(); ++i) b += xml_value(st, v[(int)i]) + xml_gap(st); b += "</data>"; }
    b += xml_gap(st) + "</array>";
  }
  else {
    if (!v.the_struct().size() && choose(st, 2)) b = "<struct/>";
    else {
      b = "<struct>" + xml_gap(st);
      for (auto i = v.the_struct().begin(); i != v.the_struct().end(); ++i)
        b += "<member>" + xml_gap(st) + "<name>" + xml_text(st, i->first) + "</name>" + xml_gap(st) + xml_value(st, *i->second) + xml_gap(st) + "</member>" + xml_gap(st);
      b += "</struct>";
    }
  }
  return "<value>" + xml_gap(st) + b + xml_gap(st) + "</value>";
}
std::string bad_value(int st)
{
  static const char* const v[] = {
    "<i4>12x</i4>", "<i4>99999999999</i4>", "<int>1.5</int>", "<int>-</int>", "<i4>5 6</i4>", "<i8>99999999999999999999</i8>", "<i8>1x</i8>", "<boolean>maybe</boolean>", "<double>abc</double>", "<double>1.5x</double>",
    "<dateTime.iso8601>2023</dateTime.iso8601>", "<dateTime.iso8601>20231301T00:00:00</dateTime.iso8601>", "<dateTime.iso8601>202312a1T00:00:00</dateTime.iso8601>", "<dateTime.iso8601>20231201T25:00:00</dateTime.iso8601>",
    "<dateTime.iso8601>20231201T10:99:00</dateTime.iso8601>", "<base64>!!!!</base64>", "<base64>QUJD*</base64>", "<what>1</what>", "<I4>1</I4>", "<i4>1</i4><i4>2</i4>", "<i4><i4>1</i4></i4>", "<i4>1<b/></i4>", "<string>x<b/></string>", "text<i4>1</i4>", "<nil>x</nil>",
    "<struct><member><value><i4>1</i4></value></member></struct>", "<struct><member><name>a</name></member></struct>", "<struct><member><name>a</name><name>b</name><value>x</value></member></struct>",
    "<struct><member><name>a</name><value>x</value><value>y</value></member></struct>", "<struct><name>a</name></struct>", "<struct><value>x</value></struct>", "<array><value>1</value></array>", "<array><data><i4>1</i4></data></array>",
    "<array><data></data><data></data></array>", "<array><data><value><i4>x</i4></value></data></array>", "<struct><member><name>a</name><value><i4>x</i4></value></member></struct>"};
  std::string x = std::string("<value>") + v[choose(st, sizeof v / sizeof *v)] + "</value>";
  for (int d = (int)choose(st, 3); d > 0; --d) {         // somewhere inside good ones
    std::string a = choose(st, 2) ? "<value>before</value>" : "", b = choose(st, 2) ? "<value><i4>3</i4></value>" : "";
    if (choose(st, 2)) x = "<value><array><data>" + a + x + b + "</data></array></value>";
    else x = "<value><struct>" + (a.empty() ? "" : "<member><name>k</name>" + a + "</member>") + "<member><name>bad</name>" + x + "</member></struct></value>";
  }
  return x;
}
std::string xml_decl(int st)
{
  static const char* d[] = {"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\r\n", "\xef\xbb\xbf<?xml version=\"1.0\"?>"};
  return d[choose(st, 5)];
}

// ---- raw ------------------------------------------------------------------------
struct TlsSide { SSL* ssl; BIO *in, *out; bool up = false; ~TlsSide() { SSL_free(ssl); } };
static SSL_CTX* peer_ctx[2][5];        // [server][cert]
bool Raw::connect(uint32_t ip, int port, Time timeout)
{
  Time dl = now() + timeout;
  return connect_plain(ip, port, timeout) && (!wire_tls || start_tls(false, 1, dl - now()));
}
bool Raw::accepted(int f, Time timeout) { fd = f; return !wire_tls || start_tls(true, 3, timeout); }
bool Raw::connect_plain(uint32_t ip, int port, Time timeout)
{
  fd = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ip); a.sin_port = htons(port);
  if (::connect(fd, (sockaddr*)&a, sizeof a) == 0) { }
  else if (errno != EINPROGRESS) { err = true; return false; }
  else {
    pollfd p = {fd, POLLOUT, 0};
    if (::poll(&p, 1, (int)(timeout / MS)) != 1) { err = true; return false; }
    int e = 0; socklen_t l = sizeof e; ::getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l);
    if (e) { err = true; return false; }
  }
  return true;
}
bool Raw::start_tls(bool server, int cert, Time timeout)
{
  tls = std::make_shared<TlsSide>();
  tls->ssl = SSL_new(peer_ctx[server][cert]); tls->in = BIO_new(BIO_s_mem()); tls->out = BIO_new(BIO_s_mem());
  SSL_set_bio(tls->ssl, tls->in, tls->out);
  if (server) SSL_set_accept_state(tls->ssl); else SSL_set_connect_state(tls->ssl);
  Time dl = now() + timeout;
  for (;;) {
    ERR_clear_error();
    int k = SSL_do_handshake(tls->ssl), e = SSL_get_error(tls->ssl, k);
    if (!drain()) return false;
    if (k == 1) break;
    std::string b;
    if (e != SSL_ERROR_WANT_READ || now() >= dl || !take(dl - now(), b)) { err = true; return false; }
    BIO_write(tls->in, b.data(), (int)b.size());
  }
  tls->up = true;
  char b[16384]; int n;
  while ((n = SSL_read(tls->ssl, b, sizeof b)) > 0) buf.append(b, n);
  return true;
}
bool Raw::drain() { char b[16384]; int n; while ((n = BIO_read(tls->out, b, sizeof b)) > 0) if (!put(std::string(b, n))) return false; return true; }
bool Raw::put(const std::string& s)
{
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
    if (n > 0) { o += n; sent += n; continue; }
    if (n < 0 && errno == EAGAIN) { pollfd p = {fd, POLLOUT, 0}; if (::poll(&p, 1, 1000000) != 1) return false; continue; }
    err = true; return false;
  }
  return true;
}
bool Raw::send(const std::string& s)
{
  if (!tls) return put(s);
  ERR_clear_error();
  if (!s.empty() && SSL_write(tls->ssl, s.data(), (int)s.size()) != (int)s.size()) { err = true; return false; }
  return drain();
}
bool Raw::send_cut(const std::string& s, const std::vector<size_t>& cuts, Time gmax, int st)
{
  size_t o = 0;
  for (size_t i = 0; i <= cuts.size(); ++i) {
    size_t e = i < cuts.size() ? std::min(cuts[i], s.size()) : s.size();
    if (e <= o) continue;
    if (!send(s.substr(o, e - o))) return false;
    if (e < s.size()) {
      // give the peer a chance to read this piece on its own
      int f = fd; size_t want = sent;
      wait_until([f, want] { return rx_taken_by_peer(f) >= want; }, 2 * SEC, "cut");
      if (gmax) sim::sleep(1 + (Time)choose(st, 8) * gmax / 7);
    }
    o = e;
  }
  return true;
}
bool Raw::take(Time timeout, std::string& to)
{
  if (eof || err) return false;
  pollfd p = {fd, POLLIN, 0};
  if (::poll(&p, 1, (int)(timeout / MS)) != 1) return false;
  char b[16384];
  ssize_t n = ::recv(fd, b, sizeof b, 0);
  if (n > 0) { to.append(b, n); return true; }
  if (n == 0) eof = true; else if (errno != EAGAIN) err = true; else return true;
  return false;
}
bool Raw::recv_some(Time timeout)
{
  if (!tls || !tls->up) return take(timeout, buf);
  std::string c; if (!take(timeout, c)) return false;
  BIO_write(tls->in, c.data(), (int)c.size());
  for (;;) {
    char b[16384]; ERR_clear_error();
    int n = SSL_read(tls->ssl, b, sizeof b), e = n > 0 ? 0 : SSL_get_error(tls->ssl, n);
    if (n > 0) { buf.append(b, n); continue; }
    if (e == SSL_ERROR_WANT_READ) return true;
    if (e == SSL_ERROR_ZERO_RETURN) eof = true; else err = true;
    return true;
  }
}
static std::string lower(std::string s) { for (char& c : s) c = (char)tolower(c); return s; }
// takes one complete message off buf
static bool take_http(std::string& buf, HttpMsg& m)
{
  size_t p = buf.find("\r\n\r\n");
  if (p == std::string::npos) return false;
  m.head = buf.substr(0, p); m.h.clear();
  size_t l = 0; bool first = true; std::string status;
  while (l <= m.head.size()) {
    size_t e = m.head.find("\r\n", l); if (e == std::string::npos) e = m.head.size();
    std::string line = m.head.substr(l, e - l);
    if (first) { status = line; first = false; }
    else { size_t c = line.find(':'); if (c != std::string::npos) { std::string v = line.substr(c + 1); while (!v.empty() && v[0] == ' ') v.erase(0, 1); m.h[lower(line.substr(0, c))] = v; } }
    l = e + 2;
  }
  m.status = status.size() > 9 && status.compare(0, 5, "HTTP/") == 0 ? atoi(status.c_str() + 9) : 0;
  size_t len = m.h.count("content-length") ? (size_t)atol(m.h["content-length"].c_str()) : 0;
  if (buf.size() < p + 4 + len) return false;
  m.body = buf.substr(p + 4, len); m.raw = buf.substr(0, p + 4 + len); buf.erase(0, p + 4 + len); m.ok = true;
  return true;
}
HttpMsg Raw::read_http(Time timeout)
{
  HttpMsg m; Time dl = now() + timeout;
  for (;;) {
    if (take_http(buf, m)) return m;
    Time left = dl - now();
    if (left <= 0) return m;
    if (!recv_some(left)) { if (eof || err) { m.truncated = !buf.empty(); m.raw = buf; } return m; }
  }
}
// true when the connection itself has ended
bool Raw::wait_close(Time timeout)
{
  Time dl = now() + timeout;
  while (!eof && !err && now() < dl) recv_some(dl - now());
  if (eof && tls && tls->up)                           // the end of TLS is not the end of the connection
    for (char b[1024];;) {
      pollfd p = {fd, POLLIN, 0};
      if (now() >= dl || ::poll(&p, 1, (int)((dl - now()) / MS)) != 1) return false;
      if (::recv(fd, b, sizeof b, 0) <= 0) break;
    }
  return eof || err;
}
void Raw::half_close() { ::shutdown(fd, SHUT_WR); }
void Raw::reset() { tls.reset(); linger l = {1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(); }
void Raw::close()
{
  if (fd >= 0 && tls && tls->up && !err) {             // the orderly end of TLS, as far as it can be sent at once
    char b[256]; ERR_clear_error(); SSL_shutdown(tls->ssl);
    int n = BIO_read(tls->out, b, sizeof b); if (n > 0) ::send(fd, b, n, MSG_NOSIGNAL | MSG_DONTWAIT);
  }
  if (fd >= 0) ::close(fd);
  fd = -1; tls.reset();
}
bool Listener::open(uint32_t ip, int port, int backlog)
{
  fd = ::socket(AF_INET, SOCK_STREAM, 0); int one = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(ip); a.sin_port = htons(port);
  return ::bind(fd, (sockaddr*)&a, sizeof a) == 0 && ::listen(fd, backlog) == 0;
}
int Listener::accept(Time timeout)
{
  pollfd p = {fd, POLLIN, 0};
  if (::poll(&p, 1, (int)(timeout / MS)) != 1) return -1;
  int c = ::accept4(fd, nullptr, nullptr, SOCK_NONBLOCK);
  return c;
}
void Listener::close() { if (fd >= 0) ::close(fd); fd = -1; }

// ---- TLS --------------------------------------------------------------------------
static uint64_t rng_state = 88172645463325252ull;
static int rng_bytes(unsigned char* b, int n) { for (int i = 0; i < n; ++i) { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; b[i] = (unsigned char)(rng_state >> 24); } return 1; }
static int rng_status() { return 1; }
static const RAND_METHOD rng_method = {nullptr, rng_bytes, nullptr, nullptr, rng_bytes, rng_status};
struct FixedVerifier: iqnet::ssl::ConnectionVerifier {
  int ok; explicit FixedVerifier(int o): ok(o) {}
  int do_verify(bool, X509_STORE_CTX*) const { probe("verifier"); if (ok == 2) throw std::runtime_error("cannot decide"); return ok; }
};
static std::string cert(const char* n) { return std::string(SIM_DIR) + "/certs/" + n; }
static int accept_any(int, X509_STORE_CTX*) { return 1; }
static iqnet::ssl::Ctx* role_ctx[2];
void tls_warm_up()
{
  RAND_set_rand_method(&rng_method);
  static const char* names[] = {"", "client", "other", "server", "chain"};
  for (int srv = 0; srv < 2; ++srv)
    for (int c = 0; c < 5; ++c) {
      SSL_CTX* x = SSL_CTX_new(srv ? TLS_server_method() : TLS_client_method());
      if (c && (SSL_CTX_use_certificate_chain_file(x, cert((std::string(names[c]) + ".crt").c_str()).c_str()) != 1 ||
                SSL_CTX_use_PrivateKey_file(x, cert((std::string(names[c]) + ".key").c_str()).c_str(), SSL_FILETYPE_PEM) != 1)) { fprintf(stderr, "cannot load certificates\n"); exit(3); }
      SSL_CTX_set_verify(x, SSL_VERIFY_NONE, accept_any);
      peer_ctx[srv][c] = x;
    }
  iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(cert("server.crt"), cert("server.key"));
  role_ctx[0] = iqnet::ssl::Ctx::client_only(); role_ctx[1] = iqnet::ssl::Ctx::server_only(cert("server.crt"), cert("server.key"));
}
void tls_no_cache() { SSL_CTX_set_session_cache_mode(iqnet::ssl::ctx->context(), SSL_SESS_CACHE_OFF); }
void draw_role(bool server) { if (choose(S_CFG, 2)) iqnet::ssl::ctx = role_ctx[server]; }
bool tls_setup(bool vs, int as, int vc, int ac)
{
  if (vs) iqnet::ssl::ctx->verify_server(new FixedVerifier(as));
  if (vc) iqnet::ssl::ctx->verify_client(vc == 2, new FixedVerifier(ac));
  return true;
}
// Decides by the name in the certificate that is shown, and checks the fingerprint the library offers for pinning.
struct NameVerifier: iqnet::ssl::ConnectionVerifier {
  std::map<std::string, int> verdict; explicit NameVerifier(const std::map<std::string, int>& v): verdict(v) {}
  int do_verify(bool, X509_STORE_CTX* c) const
  {
    X509* x = X509_STORE_CTX_get_current_cert(c); char cn[64] = ""; unsigned char md[EVP_MAX_MD_SIZE]; unsigned n = 0; std::string full, bare; char b[4];
    X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, cn, sizeof cn);
    X509_digest(x, EVP_sha256(), md, &n);
    for (unsigned i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", md[i]); full += b; snprintf(b, sizeof b, "%x", md[i]); bare += b; }
    std::string f = cert_finger_sha256(c);
    CHECK(f == full || f == bare, "wrong-fingerprint", "the verifier is shown the certificate of %s but its fingerprint is given as %s, not %s", cn, f.c_str(), full.c_str());
    auto i = verdict.find(cn); int ok = i == verdict.end() ? 0 : i->second;
    probe("verifier_by_name"); if (ok == 2) throw std::runtime_error("cannot decide");
    return ok;
  }
};
void tls_setup_names(const std::map<std::string, int>& srv, int vc, const std::map<std::string, int>& cli)
{
  iqnet::ssl::ctx->verify_server(new NameVerifier(srv));
  if (vc) iqnet::ssl::ctx->verify_client(vc == 2, new NameVerifier(cli));
}
TlsRaw::TlsRaw(Raw& raw, bool server, int c): r(raw)
{
  ssl = SSL_new(peer_ctx[server][c]); in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem());
  SSL_set_bio(ssl, in, out);
  if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl);
}
TlsRaw::~TlsRaw() { SSL_free(ssl); }
bool TlsRaw::flush()
{
  char b[16384]; int n;
  while ((n = BIO_read(out, b, sizeof b)) > 0) {
    std::string s(b, n);
    if (flip_at >= wire && flip_at < wire + s.size()) { s[flip_at - wire] ^= 0x20; fault(F_PEER_GARBAGE); }
    bool cut = cut_at < wire + s.size();
    if (cut) s.resize(cut_at > wire ? cut_at - wire : 0);
    wire += s.size();
    if (!r.send(s)) return !(failed = true);
    if (cut) return !(failed = true);
  }
  return true;
}
bool TlsRaw::fill(Time t)
{
  if (!r.recv_some(t) && r.buf.empty()) return false;
  BIO_write(in, r.buf.data(), (int)r.buf.size()); r.buf.clear();
  return true;
}
bool TlsRaw::handshake(Time timeout)
{
  Time dl = now() + timeout;
  for (;;) {
    ERR_clear_error();
    int k = SSL_do_handshake(ssl), e = SSL_get_error(ssl, k);
    if (!flush()) return false;
    if (k == 1) return true;
    if (e != SSL_ERROR_WANT_READ || now() >= dl) return !(failed = true);
    if (!fill(dl - now())) return !(failed = true);
  }
}
bool TlsRaw::send(const std::string& s)
{
  ERR_clear_error();
  if (!s.empty() && SSL_write(ssl, s.data(), (int)s.size()) != (int)s.size()) return !(failed = true);
  return flush();
}
bool TlsRaw::recv(std::string& s, Time timeout)
{
  Time dl = now() + timeout;
  for (;;) {
    char b[16384]; ERR_clear_error();
    int n = SSL_read(ssl, b, sizeof b), e = n > 0 ? 0 : SSL_get_error(ssl, n);
    if (n > 0) { s.append(b, n); return true; }
    if (e == SSL_ERROR_ZERO_RETURN) { closed = true; return false; }
    if (e != SSL_ERROR_WANT_READ) return !(failed = true);
    if (now() >= dl || !fill(dl - now())) return false;
  }
}
HttpMsg TlsRaw::read_http(Time timeout)
{
  HttpMsg m; Time dl = now() + timeout;
  while (!take_http(pending, m)) if (now() >= dl || !recv(pending, dl - now())) break;
  return m;
}

std::string http_request(const std::string& body, const std::string& extra, bool keep, const std::string& nl)
{
  return "POST /RPC HTTP/1.1" + nl + "host: sim" + nl + "content-type: text/xml" + nl + "content-length: " + std::to_string(body.size()) + nl +
    "connection: " + (keep ? "keep-alive" : "close") + nl + extra + nl + body;
}
std::string http_response(const std::string& body, const std::string& extra, const std::string& nl)
{
  return "HTTP/1.1 200 OK" + nl + "content-type: text/xml" + nl + "content-length: " + std::to_string(body.size()) + nl + extra + nl + body;
}
std::string xml_call(const std::string& m, const std::string& p) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<methodCall><methodName>" + m + "</methodName><params>" + p + "</params></methodCall>"; }
std::string xml_int(int v) { return "<param><value><int>" + std::to_string(v) + "</int></value></param>"; }
std::string xml_str(const std::string& s)
{
  std::string e; for (char c : s) { if (c == '<') e += "&lt;"; else if (c == '&') e += "&amp;"; else if (c == '>') e += "&gt;"; else e += c; }
  return "<param><value><string>" + e + "</string></value></param>";
}
std::string xml_ok(const std::string& v) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<methodResponse><params><param><value>" + v + "</value></param></params></methodResponse>"; }
std::string xml_fault(int code, const std::string& t)
{
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<methodResponse><fault><value><struct><member><name>faultCode</name><value><int>" + std::to_string(code) +
    "</int></value></member><member><name>faultString</name><value><string>" + t + "</string></value></member></struct></value></fault></methodResponse>";
}
std::string b64(const std::string& s)
{
  static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r; size_t i = 0;
  for (; i + 2 < s.size(); i += 3) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2]; r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += t[v & 63]; }
  if (i + 1 == s.size()) { unsigned v = (unsigned char)s[i] << 16; r += t[v >> 18]; r += t[v >> 12 & 63]; r += "=="; }
  else if (i + 2 == s.size()) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; r += t[v >> 18]; r += t[v >> 12 & 63]; r += t[v >> 6 & 63]; r += "="; }
  return r;
}
int odd_code(int st) { static const int c[] = {0, 1, -1, -32601, 255, 256, 32767, 32768, -32769, 65536, 2147483647, -2147483647 - 1}; return c[choose(st, 12)]; }
static std::string between(const std::string& s, const std::string& a, const std::string& b, size_t from = 0)
{
  size_t i = s.find(a, from); if (i == std::string::npos) return "";
  i += a.size(); size_t e = s.find(b, i); return e == std::string::npos ? "" : s.substr(i, e - i);
}
bool parse_response(const std::string& b, bool& fault, int& code, std::string& text)
{
  if (b.find("<methodResponse>") == std::string::npos) return false;
  fault = b.find("<fault>") != std::string::npos; code = 0;
  if (fault) {
    size_t c = b.find("faultCode"), t = b.find("faultString");
    if (c == std::string::npos || t == std::string::npos) return false;
    std::string v = between(b, "<int>", "</int>", c); if (v.empty()) v = between(b, "<i4>", "</i4>", c);
    code = atoi(v.c_str()); text = between(b, "<string>", "</string>", t); if (text.empty()) text = between(b, "<value>", "</value>", t);
  } else {
    text = between(b, "<string>", "</string>"); if (text.empty()) text = between(b, "<int>", "</int>"); if (text.empty()) text = between(b, "<i4>", "</i4>"); if (text.empty()) text = between(b, "<value>", "</value>");
  }
  return true;
}
std::vector<size_t> rnd_cuts(int st, size_t len, int max)
{
  std::vector<size_t> c; int n = (int)choose(st, max + 1);
  for (int i = 0; i < n; ++i) c.push_back(1 + choose(st, (uint32_t)len));
  std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
  return c;
}
bool join(const std::vector<int>& t, Time limit)
{
  return wait_until([&t] { for (int x : t) if (!finished(x)) return false; return true; }, limit, "join actors");
}
std::string unfinished(const std::vector<int>& t)
{
  std::string s; for (int x : t) if (!finished(x)) s += threads()[x]->name + " "; return s + "\n" + thread_dump();
}
void swarm_faults(bool resets, bool stalls, Time smax)
{
  static const int rp[] = {0, 3, 20, 100}; static const int sp[] = {0, 5, 30, 150};
  if (resets) knobs.rst_permille = rp[choose(S_CFG, 4)];
  if (stalls) { knobs.stall_permille = sp[choose(S_CFG, 4)]; knobs.stall_max = smax; }
  if (knobs.seg_kind == 1 || knobs.seg_kind == 2) { knobs.rst_permille = (knobs.rst_permille + 9) / 10; knobs.stall_permille = (knobs.stall_permille + 9) / 10; }
}
void Ledger::install(ServerNode& sv, const std::string& name)
{
  sv.add(name, [this](ix::Method*, const Param_list& p, Value& r) {
    if (p.size() < 3) throw ix::Invalid_meth_params();
    std::string t = p[0].get_string(); int d = p[1].get_int(), mode = p[2].get_int();
    runs[t]++; ++total; log("run %s", t.c_str());
    if (++running > max_running) max_running = running;
    if (d) sim::sleep((Time)d * MS);
    --running;
    if (mode == 1) throw ix::Fault(77, "F:" + t);
    r = "A:" + t + (mode > 1 ? std::string((size_t)mode, 'b') : std::string());
  });
}
std::string run_call(const std::string& t, int d, int mode, const std::string& m) { return xml_call(m, xml_str(t) + xml_int(d) + xml_int(mode)); }
void nontrivial() { out->nontrivial = 1; }
void leak_check(const char* when)
{
  active = false;                                    // the checker's own system calls are not part of the run
  int found = __lsan_do_recoverable_leak_check();
  active = true;
  CHECK(!found, "leak", "some memory is not referred to any more although %s", when);
}
} // namespace lab

void warm_up()
{
  xmlInitParser();
  OPENSSL_init_ssl(0, nullptr);
  lab::tls_warm_up();
}
