// Building blocks for worlds: servers, clients, raw peers, values.
#pragma once
#include "world.h"
#include <libiqxmlrpc/libiqxmlrpc.h>
#include <libiqxmlrpc/http_server.h>
#include <libiqxmlrpc/http_client.h>
#include <libiqxmlrpc/https_server.h>
#include <libiqxmlrpc/https_client.h>
#include <libiqxmlrpc/executor.h>
#include <libiqxmlrpc/ssl_lib.h>
#include <libiqxmlrpc/auth_plugin.h>
#include <libiqxmlrpc/firewall.h>
#include <libiqxmlrpc/http_errors.h>
#include <memory>

namespace lab {
using namespace sim;
namespace ix = iqxmlrpc;
using ix::Value; using ix::Param_list;

const int PORT = 3344;
const uint32_t SRV = 0x0a000001;                       // 10.0.0.1, the driver's host
inline uint32_t peer_ip(int k) { return 0x0a000100 + (uint32_t)k; }   // 10.0.1.k

// With wire_tls set, servers, clients and raw peers of a run speak TLS; worlds draw it once with draw_tls().
extern bool wire_tls;
bool draw_tls(int one_in);                             // true in one of so many runs
void tls_no_cache();                                   // OpenSSL keeps no sessions, so memory is the library's
void draw_role(bool server);                           // where the library is only one side: sometimes with the context for that side

typedef std::function<void(ix::Method*, const Param_list&, Value&)> MethodFn;

// ---- server node ------------------------------------------------------------
struct ServerNode {
  std::unique_ptr<ix::Executor_factory_base> ef;
  std::unique_ptr<ix::Server> srv;
  ix::Pool_executor_factory* pool = nullptr;
  int nthreads = 0; bool https = false; int port = PORT; uint32_t host = SRV;
  int tid = -1; bool returned = false, threw = false; std::string what; int cycles = 0;
  ServerNode(int pool_threads = 0, bool https = wire_tls, int port = PORT);
  ~ServerNode() {}                                     // worlds decide when and how to destroy
  void add(const std::string& name, MethodFn fn);
  void start(bool wait_listen = true);                 // work() in its own thread
  bool running() const { return tid >= 0 && !returned && !threw; }
  void expect_alive(const char* when);                 // violation if work() ended
  bool stop(Time limit = 1000 * SEC);                  // stop request from the calling thread, waits for work()
  void destroy();                                      // pool first, then server
};

// ---- client calls -------------------------------------------------------------
struct Out {
  enum Kind { OK, FAULT, HTTP, TIMEOUT, NET, OTHER } kind = OTHER;
  std::shared_ptr<Value> v;         // shared: copying an Out runs no library code
  int code = 0; std::string text; Time began = 0, ended = 0;
  const Value& value() const { return *v; }
  bool ok() const { return kind == OK; }
  bool response() const { return kind == OK || kind == FAULT; }
  std::string str() const;
};
std::unique_ptr<ix::Client_base> make_client(const iqnet::Inet_addr& a, const std::string& uri = "/RPC", const std::string& vhost = "");   // as wire_tls says
std::unique_ptr<ix::Client_base> make_client(bool https, const iqnet::Inet_addr& a, const std::string& uri = "/RPC", const std::string& vhost = "");
Out call(ix::Client_base& c, const std::string& m, const Param_list& p, const ix::XHeaders* xh = nullptr);

// ---- values -------------------------------------------------------------------
std::string vstr(const Value& v, size_t max = 200);
bool veq(const Value& a, const Value& b);
Value rnd_value(int stream, int depth, size_t max_str);
std::string rnd_text(int stream, size_t n);           // valid XML characters, no leading/trailing blanks only strings
extern Time together;                                 // methods end at multiples of this, so that their answers are made at the same time
inline void draw_together(int pool) { if (pool > 1 && choose(S_CFG, 6) == 1) together = 5 * MS; }
extern bool no_blank_text;                            // rnd_text makes no strings of white space only
Value vstruct();
std::string xml_value(int stream, const Value& v);    // one of the many ways to write it, with its <value> tags
std::string xml_gap(int stream);                      // what may stand between tags
std::string xml_decl(int stream);
std::string bad_value(int stream);                    // with its <value> tags: what no XML-RPC document may contain

// ---- raw peers ----------------------------------------------------------------
struct HttpMsg {
  bool ok = false; std::string head, body; int status = 0; std::map<std::string, std::string> h; std::string raw;
  bool truncated = false;
};
struct TlsSide;
struct Raw {
  int fd = -1; std::string buf; bool eof = false, err = false; size_t sent = 0;   // sent counts bytes on the wire
  std::shared_ptr<TlsSide> tls;
  ~Raw() { if (fd >= 0) close(); }
  bool connect(uint32_t ip, int port, Time timeout = 1000 * SEC);   // with wire_tls includes the handshake
  bool connect_plain(uint32_t ip, int port, Time timeout = 1000 * SEC);
  bool start_tls(bool server, int cert, Time timeout = 1000 * SEC);
  bool accepted(int f, Time timeout = 1000 * SEC);     // takes over an accepted descriptor, same rule
  bool send(const std::string& s);                    // everything (blocking); false on error
  // sends in pieces, cut at the given offsets, waiting for each piece to be read by the peer
  bool send_cut(const std::string& s, const std::vector<size_t>& cuts, Time gap_max, int stream);
  bool recv_some(Time timeout);                       // appends to buf; false on timeout, EOF or error
  HttpMsg read_http(Time timeout);                    // one complete message, or !ok
  bool wait_close(Time timeout);                      // true when the peer closed or reset
  void half_close(); void reset(); void close();
 private:
  bool put(const std::string& s); bool take(Time timeout, std::string& to); bool drain();
};
struct Listener {
  int fd = -1;
  bool open(uint32_t ip, int port, int backlog = 10);
  int accept(Time timeout);                           // -1 on timeout
  void close();
};
// A scripted TLS peer: OpenSSL over memory buffers, so that its bytes can be cut or changed on the wire.
struct TlsRaw {
  Raw& r; struct ssl_st* ssl = nullptr; struct bio_st *in = nullptr, *out = nullptr; bool failed = false, closed = false;
  size_t wire = 0;                                    // bytes put on the wire so far
  size_t cut_at = (size_t)-1, flip_at = (size_t)-1;   // stop sending at / change one bit of this byte of the stream
  TlsRaw(Raw& raw, bool server, int cert);            // cert 0 none, 1 client, 2 other, 3 server, 4 chain (sends its issuer, root, along)
  ~TlsRaw();
  bool flush();                                       // false when cut or the connection broke
  bool fill(Time timeout);
  bool handshake(Time timeout);
  bool send(const std::string& s);
  bool recv(std::string& s, Time timeout);            // appends; false on end, error or timeout
  HttpMsg read_http(Time timeout);
  std::string pending;
};
// Verdicts of the configured verifiers: 0 reject, 1 accept, 2 throw an exception.
bool tls_setup(bool verify_srv, int accept_srv, int verify_cli, int accept_cli);   // configures the library's context for this run
void tls_setup_names(const std::map<std::string, int>& srv, int verify_cli, const std::map<std::string, int>& cli);   // verdicts by the name in the certificate

std::string http_request(const std::string& body, const std::string& extra = "", bool keep = false, const std::string& nl = "\r\n");
std::string http_response(const std::string& body, const std::string& extra = "", const std::string& nl = "\r\n");
std::string xml_call(const std::string& method, const std::string& params_xml);
std::string xml_int(int v);
std::string xml_str(const std::string& s);
std::string xml_ok(const std::string& value_xml);
std::string xml_fault(int code, const std::string& text);
int odd_code(int stream);                                            // fault codes at limits
std::string b64(const std::string& s);
bool parse_response(const std::string& body, bool& fault, int& code, std::string& text);  // of raw XML answers; text = string form

std::vector<size_t> rnd_cuts(int stream, size_t len, int max);
bool join(const std::vector<int>& tids, Time limit);  // wait for threads; false on limit
std::string unfinished(const std::vector<int>& tids);
void nontrivial();
void leak_check(const char* when);                     // violation if some memory is not referred to any more
void swarm_faults(bool resets, bool stalls, Time stall_max);   // connection resets and stalls, scaled to the segmentation

// What the server executed, by unique token.
struct Ledger {
  std::map<std::string, int> runs; int running = 0, max_running = 0; uint64_t total = 0;
  // registers "run"(token, delay ms, mode): 0 answer "A:"+token, 1 fault 77 "F:"+token
  void install(ServerNode& sv, const std::string& name = "run");
  int ran(const std::string& t) { auto i = runs.find(t); return i == runs.end() ? 0 : i->second; }
};
std::string run_call(const std::string& token, int delay_ms = 0, int mode = 0, const std::string& method = "run");   // XML
// Harness bookkeeping on shared containers that runs library code (copying values) must not be preempted.
struct NoPreempt { NoPreempt() { self()->core++; } ~NoPreempt() { self()->core--; } };
} // namespace lab
