// Simulated TCP, poll and name resolution (Linux semantics).
#include "sim.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim { void tick(Time); }
using namespace sim;

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
#define WRAP(ret, name, ...) extern "C" ret __wrap_##name(__VA_ARGS__)

namespace {

struct Sock;
typedef std::shared_ptr<Sock> SockP;
struct Sock; struct EpItem { std::weak_ptr<Sock> s; uint32_t ev; uint64_t data; };
struct Sock {
  int id = 0; uint32_t host = 0; bool foreign = false, nonblock = false, evt = false, inner = false; uint64_t evcount = 0; std::unique_ptr<std::map<int, EpItem>> ep;
  enum St { NEW, BOUND, LISTEN, CONNECTING, CONN, DEAD } st = NEW;
  uint32_t lip = 0, pip = 0; int lport = 0, pport = 0; bool reuse = false, linger0 = false;
  std::deque<SockP> acceptq; int backlog = 0;
  std::weak_ptr<Sock> peer;
  std::string rx; size_t rxoff = 0;
  std::string tx; size_t txoff = 0;
  size_t inflight = 0;
  bool fin_queued = false, fin_sent = false, fin_rcvd = false, shut_rd = false;
  int so_error = 0; bool closed = false;
  size_t sndcap = 262144, rcvcap = 262144;
  Time stall_until = 0, last_deliv = 0, last_io = 0, lingers = 0;   // lingers: end of TIME_WAIT
  int small_segs = 0; int refs = 0; int fd = -1; int ignored = 0;   // times poll reported it readable since it was last read
  bool local = false;            // both ends on one host: no faults
  int conn = -1; bool client = false;
  uint64_t delivered = 0, taken = 0;
  size_t rx_avail() const { return rx.size() - rxoff; }
  size_t tx_avail() const { return tx.size() - txoff; }
  size_t used() const { return tx_avail() + inflight; }
  bool writable() const { size_t u = used(); return u < sndcap && (sndcap - u) * 2 >= u; }
};

const int LIB_BASE = 64, LIB_END = 2048, EXT_BASE = 2048, EXT_END = 4096;
std::map<int, SockP> fds;
std::vector<SockP> all;
std::map<std::string, uint32_t> hosts; std::map<std::string, int> host_more;
std::set<uint32_t> host_ips;
std::set<std::pair<uint32_t, int>> blackholes, refuses; std::map<std::pair<uint32_t, int>, Time> syn_delay;
std::vector<ConnInfo> conns;
int next_id = 1; int next_port = 32768; int ignored_most = 0;
uint64_t stale = 0; std::string stale_txt;
std::function<int(const std::string&)> dns_fn;

bool range_fd(int fd) { return (fd >= LIB_BASE && fd < LIB_END) || (fd >= EXT_BASE && fd < EXT_END); }
bool sim_fd(int fd) { return in_sim() && range_fd(fd); }
SockP get(int fd, const char* what)
{
  auto i = fds.find(fd);
  if (i != fds.end()) return i->second;
  if (fd >= LIB_BASE && fd < LIB_END) {
    stale++;
    if (stale_txt.size() < 400) stale_txt += std::string(what) + " on closed descriptor " + std::to_string(fd) + " by " + self()->name + "; ";
    log("stale %s fd %d", what, fd);
  }
  errno = EBADF;
  return SockP();
}
int alloc_fd(SockP s)
{
  bool ext = self()->foreign;
  static int fresh = LIB_BASE;
  int fd = ext ? EXT_BASE : knobs.fd_fresh && fresh < LIB_END - 300 ? fresh++ : LIB_BASE;
  while (fds.count(fd)) ++fd;
  if (fd >= (ext ? EXT_END : LIB_END)) { errno = EMFILE; return -1; }
  fds[fd] = s; s->refs++; s->fd = fd;
  return fd;
}
SockP new_sock()
{
  SockP s(new Sock); s->id = next_id++; s->host = self()->host; s->foreign = self()->foreign;
  s->sndcap = knobs.sndbuf; s->rcvcap = knobs.rcvbuf;
  all.push_back(s);
  return s;
}
Time latency(const Sock& s)
{
  if (s.local || !knobs.lat_max) return 0;
  Time d = (Time)choose(S_NET, 16) * knobs.lat_max / 15;
  if (d) fault(F_DELAY);
  return d;
}
void kill(SockP s, int err)      // connection is dead at this end
{
  if (s->st == Sock::DEAD) return;
  log("sock %d reset err %d", s->id, err);
  s->so_error = err == ECONNRESET && s->fin_rcvd ? EPIPE : err; s->st = Sock::DEAD; s->tx.clear(); s->txoff = 0; s->fin_queued = s->fin_sent = true;
}
void pump(SockP s);

void send_rst(SockP from)        // reset travels to the peer, behind data already in flight
{
  SockP p = from->peer.lock();
  if (!p) return;
  Time t = std::max(now() + latency(*from), std::max(from->last_deliv, from->stall_until));
  from->last_deliv = t;
  after(t - now(), [p] { if (!p->closed || p->st != Sock::DEAD) kill(p, p->fin_rcvd ? EPIPE : ECONNRESET); });
}
void deliver(SockP s, std::string data, bool fin)
{
  SockP p = s->peer.lock();
  s->inflight -= data.size();
  if (s->st == Sock::DEAD && s->so_error == ECONNRESET) { /* data sent before the reset still arrives */ }
  if (!p || p->st == Sock::DEAD) return;
  if (!data.empty()) {
    if (p->closed) {           // data for a closed socket is answered by a reset
      log("sock %d data to closed peer", s->id);
      if (s->st != Sock::DEAD) { send_rst(p); kill(p, ECONNRESET); }   // behind what the closed side still has in flight
      return;
    }
    if (p->rxoff > 65536 && p->rxoff * 2 > p->rx.size()) { p->rx.erase(0, p->rxoff); p->rxoff = 0; }
    p->rx += data; p->last_io = s->last_io = now(); s->delivered += data.size();
    out->net_bytes += data.size();
    if (s->conn >= 0) (s->client ? conns[s->conn].to_server : conns[s->conn].to_client) += data.size();
    log("sock %d -> %d %zu bytes", s->id, p->id, data.size());
    if (!s->local && knobs.rst_permille && faults_on() && chance(S_FAULT, knobs.rst_permille)) {
      fault(F_RST);
      int both = choose(S_FAULT, 3);
      if (both != 1) kill(p, ECONNRESET);
      if (both != 2) kill(s, ECONNRESET);
      if (both == 1) { SockP pp = p; after(latency(*s) + US, [pp] { kill(pp, ECONNRESET); }); }
      if (both == 2) { SockP ss = s; after(latency(*s) + US, [ss] { kill(ss, ECONNRESET); }); }
      return;
    }
  }
  if (fin) { p->fin_rcvd = true; p->last_io = now(); log("sock %d fin", p->id); }
  pump(s);
}
size_t seg_size(SockP s, size_t n)
{
  if (s->local) return n;
  int k = knobs.seg_kind;
  if (k == 5) k = (int)choose(S_NET, 5);
  if ((k == 1 || k == 2 || k == 3) && s->small_segs > 1500) k = 4;
  size_t r = n;
  switch (k) {
  case 1: r = 1; s->small_segs++; break;
  case 2: r = 1 + choose(S_NET, 12); s->small_segs++; break;
  case 3: r = 1 + choose(S_NET, (uint32_t)std::min<size_t>(n, 70000)); s->small_segs++; break;
  case 4: r = knobs.mss; break;
  default: r = n;
  }
  if (s->small_segs > 1500) r = std::max<size_t>(r, 4096);
  if (r < n) fault(F_SEGMENT);
  return std::min(r, n);
}
void pump(SockP s)
{
  SockP p = s->peer.lock();
  if (s->st == Sock::DEAD) return;
  while (s->tx_avail()) {
    if (!p) { s->tx.clear(); s->txoff = 0; break; }
    size_t win = p->rcvcap > p->rx_avail() + s->inflight ? p->rcvcap - p->rx_avail() - s->inflight : 0;
    if (p->closed) win = 65536;
    if (!win) { probe("zero_window"); return; }
    size_t n = seg_size(s, std::min(s->tx_avail(), win));
    Time d = latency(*s);
    if (!s->local && knobs.stall_permille && faults_on() && chance(S_FAULT, knobs.stall_permille)) {
      d += 1 + (Time)choose(S_FAULT, 1000) * (knobs.stall_max / 1000); fault(F_STALL);
    }
    Time t = std::max(now() + d, std::max(s->last_deliv, s->stall_until));
    s->last_deliv = t;
    std::string data = s->tx.substr(s->txoff, n);
    s->txoff += n; s->inflight += n;
    if (s->txoff > 65536 && s->txoff * 2 > s->tx.size()) { s->tx.erase(0, s->txoff); s->txoff = 0; }
    after(t - now(), [s, data] { deliver(s, data, false); });
  }
  if (s->fin_queued && !s->fin_sent && !s->tx_avail()) {
    s->fin_sent = true;
    Time t = std::max(now() + latency(*s), std::max(s->last_deliv, s->stall_until));
    s->last_deliv = t;
    after(t - now(), [s] { deliver(s, std::string(), true); });
  }
}

SockP listener(uint32_t host, uint32_t ip, int port)
{
  for (auto& w : all) {
    SockP s = w;
    if (s && s->st == Sock::LISTEN && !s->closed && s->host == host && s->lport == port && (s->lip == 0 || s->lip == ip)) return s;
  }
  return SockP();
}
bool is_loop(uint32_t ip) { return (ip >> 24) == 127 || ip == 0; }
void syn(SockP c, uint32_t dhost, int tries)
{
  if (c->closed || c->st != Sock::CONNECTING) return;
  if (blackholes.count({c->pip, c->pport})) { fault(F_BLACKHOLE); log("syn dropped"); return; }
  SockP l = refuses.count({c->pip, c->pport}) ? SockP() : listener(dhost, c->pip, c->pport);
  if (!l) {
    fault(F_REFUSED);
    after(latency(*c), [c] { if (c->st == Sock::CONNECTING) kill(c, ECONNREFUSED); });
    return;
  }
  if ((int)l->acceptq.size() > l->backlog) {
    probe("backlog_full");
    if (tries > 6) { kill(c, ETIMEDOUT); return; }
    after(SEC << tries, [c, dhost, tries] { syn(c, dhost, tries + 1); });
    return;
  }
  SockP s(new Sock); s->id = next_id++; s->host = l->host; s->foreign = l->foreign; s->st = Sock::CONN;
  s->sndcap = knobs.sndbuf; s->rcvcap = knobs.rcvbuf;
  if (c->local) { s->sndcap = s->rcvcap = 262144; }
  s->reuse = l->reuse;
  s->lip = c->pip; s->lport = c->pport; s->pip = c->lip; s->pport = c->lport; s->local = c->local;
  all.push_back(s);
  s->peer = c; c->peer = s;
  l->acceptq.push_back(s);
  s->last_io = now();
  s->conn = c->conn = (int)conns.size(); c->client = true;
  conns.push_back(ConnInfo{c->lip, c->lport, c->pip, c->pport, now(), 0, 0});
  log("syn: sock %d queued for accept", s->id);
  after(latency(*c), [c] { if (c->st == Sock::CONNECTING) { c->st = Sock::CONN; c->last_io = now(); log("sock %d connected", c->id); pump(c); } });
}

short ready(const Sock& s, short ev)
{
  short m = 0;
  if (s.evt) { if (s.evcount) m |= POLLIN; m |= POLLOUT; return m & (ev | POLLERR | POLLHUP); }
  switch (s.st) {
  case Sock::NEW: case Sock::BOUND: m = POLLOUT | POLLHUP; break;
  case Sock::LISTEN: if (!s.acceptq.empty()) m = POLLIN; break;
  case Sock::CONNECTING: break;
  case Sock::CONN: case Sock::DEAD: {
    bool dead = s.st == Sock::DEAD, wr = s.fin_queued || dead, rd = s.fin_rcvd || s.shut_rd || dead;
    if (s.so_error) m |= POLLERR;
    if (wr && rd) m |= POLLHUP;
    if (rd) m |= POLLIN | POLLRDHUP;
    if (s.rx_avail()) m |= POLLIN;
    if (wr || s.writable()) m |= POLLOUT;
  } }
  return m & (ev | POLLERR | POLLHUP);
}

int take_error(Sock& s) { int e = s.so_error; s.so_error = 0; return e; }

ssize_t do_send(int fd, const void* buf, size_t len, int flags, const char* what)
{
  tick(US);
  yield(what);
  SockP s = get(fd, what);
  if (!s) return -1;
  if (s->evt) { if (len < 8) { errno = EINVAL; return -1; } uint64_t v; memcpy(&v, buf, 8); s->evcount += v; return 8; }
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  size_t done = 0;
  for (;;) {
    if (s->st == Sock::CONNECTING) {
      if (nb) { errno = EAGAIN; return -1; }
      block([s] { return s->st != Sock::CONNECTING; }, NEVER, "send");
      continue;
    }
    if (s->so_error == EPIPE) take_error(*s);            // reset after the peer's FIN: EPIPE, with the signal
    else if (s->so_error) { errno = take_error(*s); return -1; }
    if (s->st == Sock::NEW || s->st == Sock::BOUND || s->st == Sock::LISTEN || s->fin_queued || s->st == Sock::DEAD) {
      log("sock %d EPIPE", s->id);
      if (!(flags & MSG_NOSIGNAL) && !s->foreign) {
        probe("sigpipe");
        if (knobs.sigpipe_fatal) violation("sigpipe", "write on a broken connection without MSG_NOSIGNAL would kill the process");
      }
      errno = EPIPE; return -1;
    }
    size_t free = s->used() < s->sndcap ? s->sndcap - s->used() : 0;
    if (!free) {
      probe("send_buffer_full");
      if (nb) { if (done) return done; errno = EAGAIN; return -1; }
      block([s] { return s->st != Sock::CONN || s->fin_queued || s->used() < s->sndcap; }, NEVER, "send");
      continue;
    }
    size_t n = std::min(free, len - done);
    if (!s->local && nb && n > 1 && knobs.short_send_permille && chance(S_NET, knobs.short_send_permille)) {
      n = 1 + choose(S_NET, (uint32_t)std::min<size_t>(n, 4096)); n = std::min(n, len - done); fault(F_SHORT_SEND);
    } else if (n < len - done) fault(F_SHORT_SEND);
    self()->last_net_ok = now();
    s->tx.append((const char*)buf + done, n);
    done += n;
    log("sock %d send %zu", s->id, n);
    pump(s);
    if (nb || done >= len) return done;
  }
}
ssize_t do_recv(int fd, void* buf, size_t len, int flags, const char* what)
{
  tick(US);
  yield(what);
  SockP s = get(fd, what);
  if (!s) return -1;
  s->ignored = 0;
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  if (s->evt) {
    if (!s->evcount) { if (nb) { errno = EAGAIN; return -1; } block([s] { return s->evcount != 0; }, NEVER, "read"); }
    if (len < 8) { errno = EINVAL; return -1; }
    memcpy(buf, &s->evcount, 8); s->evcount = 0; return 8;
  }
  for (;;) {
    if (s->rx_avail()) {
      size_t n = std::min(len, s->rx_avail());
      if (!s->local && n > 1 && knobs.short_recv_permille && chance(S_NET, knobs.short_recv_permille)) {
        n = 1 + choose(S_NET, (uint32_t)std::min<size_t>(n, 4096)); fault(F_SHORT_RECV);
      }
      self()->last_net_ok = now();
      memcpy(buf, s->rx.data() + s->rxoff, n);
      if (!(flags & MSG_PEEK)) { s->rxoff += n; s->taken += n; if (s->rxoff == s->rx.size()) { s->rx.clear(); s->rxoff = 0; } }
      log("sock %d recv %zu", s->id, n);
      if (SockP p = s->peer.lock()) { p->last_io = now(); pump(p); }
      return n;
    }
    if (s->fin_rcvd) { log("sock %d recv eof", s->id); return 0; }
    if (s->so_error) { errno = take_error(*s); log("sock %d recv err %d", s->id, errno); return -1; }
    if (s->st == Sock::DEAD || s->fin_rcvd || s->shut_rd) { log("sock %d recv eof", s->id); return 0; }
    if (s->st == Sock::NEW || s->st == Sock::BOUND || s->st == Sock::LISTEN) { errno = ENOTCONN; return -1; }
    if (nb) { probe("recv_eagain"); errno = EAGAIN; return -1; }
    block([s] { return s->rx_avail() || s->so_error || s->st == Sock::DEAD || s->fin_rcvd || s->shut_rd; }, NEVER, "recv");
  }
}
void release(SockP s)
{
  if (--s->refs > 0) return;
  s->closed = true;
  switch (s->st) {
  case Sock::LISTEN:
    for (auto& q : s->acceptq) { q->closed = true; send_rst(q); kill(q, ECONNRESET); }
    s->acceptq.clear(); s->st = Sock::DEAD; break;
  case Sock::CONN:
    if (s->rx_avail() || s->linger0) { log("sock %d close with reset", s->id); send_rst(s); kill(s, ECONNRESET); }
    else { if (!s->fin_rcvd) s->lingers = now() + 60 * SEC; s->fin_queued = true; pump(s); }
    break;
  case Sock::CONNECTING: {
    SockP p = s->peer.lock();
    if (p) { send_rst(s); }
    s->st = Sock::DEAD; break; }
  case Sock::DEAD: break;
  default: s->st = Sock::DEAD;
  }
}
void fill(sockaddr* a, socklen_t* l, uint32_t ip, int port)
{
  if (!a || !l) return;
  sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(ip); in.sin_port = htons(port);
  memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in;
}
} // namespace

namespace sim {
void add_host(const std::string& n, uint32_t ip, int more) { hosts[n] = ip; host_ips.insert(ip); host_more[n] = more; }
void remove_host(const std::string& n) { hosts.erase(n); }
void dns_override(std::function<int(const std::string&)> f) { dns_fn = f; }
size_t open_fds_lib() { size_t n = 0; for (auto& f : fds) if (f.first < LIB_END) ++n; return n; }
size_t open_tcp_lib() { size_t n = 0; for (auto& f : fds) if (f.first < LIB_END && !f.second->inner) ++n; return n; }
size_t open_tcp_host(uint32_t ip) { size_t n = 0; for (auto& f : fds) if (f.first < LIB_END && !f.second->inner && f.second->host == ip) ++n; return n; }
size_t open_fds_host(uint32_t ip) { size_t n = 0; for (auto& f : fds) if (f.first < LIB_END && f.second->host == ip) ++n; return n; }
bool fd_readable(int fd) { auto i = fds.find(fd); if (i == fds.end()) return true; Sock& s = *i->second; return s.rx_avail() || s.fin_rcvd || s.st == Sock::DEAD; }
std::string fd_dump()
{
  std::string r;
  static const char* st[] = {"new", "bound", "listening", "connecting", "connected", "dead"};
  for (auto& f : fds) if (f.first < LIB_END) {
    Sock& s = *f.second;
    r += "fd " + std::to_string(f.first) + " (" + st[s.st] + " " + ipstr(s.lip) + ":" + std::to_string(s.lport) + " peer " + ipstr(s.pip) + ":" + std::to_string(s.pport) + (s.fin_rcvd ? " peer-closed" : "") + ") ";
  }
  return r;
}
uint64_t stale_ops() { return stale; }
std::string stale_detail() { return stale_txt; }
size_t conns_to(uint32_t ip, int port) { size_t n = 0; for (auto& c : conns) if (c.sip == ip && c.sport == port) ++n; return n; }
const std::vector<ConnInfo>& conn_log() { return conns; }
size_t tx_pending(int fd) { auto i = fds.find(fd); return i == fds.end() ? 0 : i->second->used(); }
size_t delivered_to_peer(int fd) { auto i = fds.find(fd); return i == fds.end() ? 0 : i->second->delivered; }
size_t rx_taken_by_peer(int fd) { auto i = fds.find(fd); if (i == fds.end()) return 0; SockP p = i->second->peer.lock(); return p ? p->taken : 0; }
int most_ignored() { return ignored_most; }
Time last_rx(int fd) { auto i = fds.find(fd); return i == fds.end() ? 0 : i->second->last_io; }
void net_reset(int fd)
{
  auto i = fds.find(fd);
  if (i == fds.end()) return;
  SockP s = i->second, p = s->peer.lock();
  if (s->st != Sock::CONN) return;
  fault(F_RST); kill(s, ECONNRESET); if (p) kill(p, ECONNRESET);
}
void net_stall(int fd, Time t)
{
  auto i = fds.find(fd);
  if (i == fds.end()) return;
  SockP s = i->second, p = s->peer.lock();
  fault(F_STALL); s->stall_until = now() + t; if (p) p->stall_until = now() + t;
}
void set_blackhole(uint32_t ip, int port, bool on) { if (on) blackholes.insert({ip, port}); else blackholes.erase({ip, port}); }
void set_refuse(uint32_t ip, int port, bool on) { if (on) refuses.insert({ip, port}); else refuses.erase({ip, port}); }
void set_syn_delay(uint32_t ip, int port, Time d) { if (d) syn_delay[{ip, port}] = d; else syn_delay.erase({ip, port}); }
void freeze_host(uint32_t ip)
{
  for (size_t i = 0; i < all.size(); ++i) {
    SockP s = all[i];
    if (s->host != ip || s->local || s->st != Sock::CONN) continue;
    SockP p = s->peer.lock(); fault(F_RST); kill(s, ECONNRESET); if (p) kill(p, ECONNRESET);
  }
}
bool has_listener(uint32_t ip, int port) { return (bool)listener(ip, ip, port); }
void fd_set_buf(int fd, size_t snd, size_t rcv) { auto i = fds.find(fd); if (i != fds.end()) { if (snd) i->second->sndcap = snd; if (rcv) i->second->rcvcap = rcv; } }
std::string ipstr(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); return b; }
} // namespace sim

// ---- wrapped calls ----------------------------------------------------------
REAL(int, socket, int, int, int);
REAL(int, bind, int, const sockaddr*, socklen_t);
REAL(int, listen, int, int);
REAL(int, accept, int, sockaddr*, socklen_t*);
REAL(int, accept4, int, sockaddr*, socklen_t*, int);
REAL(int, connect, int, const sockaddr*, socklen_t);
REAL(ssize_t, send, int, const void*, size_t, int);
REAL(ssize_t, recv, int, void*, size_t, int);
REAL(ssize_t, sendto, int, const void*, size_t, int, const sockaddr*, socklen_t);
REAL(ssize_t, recvfrom, int, void*, size_t, int, sockaddr*, socklen_t*);
REAL(ssize_t, sendmsg, int, const msghdr*, int);
REAL(ssize_t, recvmsg, int, msghdr*, int);
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(ssize_t, readv, int, const iovec*, int);
REAL(ssize_t, writev, int, const iovec*, int);
REAL(int, poll, pollfd*, nfds_t, int);
REAL(int, ppoll, pollfd*, nfds_t, const timespec*, const sigset_t*);
REAL(int, select, int, fd_set*, fd_set*, fd_set*, timeval*);
REAL(int, close, int);
REAL(int, shutdown, int, int);
REAL(int, fcntl, int, int, ...);
REAL(int, fcntl64, int, int, ...);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, setsockopt, int, int, int, const void*, socklen_t);
REAL(int, getsockopt, int, int, int, void*, socklen_t*);
REAL(int, getsockname, int, sockaddr*, socklen_t*);
REAL(int, getpeername, int, sockaddr*, socklen_t*);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, dup3, int, int, int);
REAL(int, pselect, int, fd_set*, fd_set*, fd_set*, const timespec*, const sigset_t*);
REAL(int, epoll_create, int);
REAL(int, epoll_create1, int);
REAL(int, epoll_ctl, int, int, int, epoll_event*);
REAL(int, epoll_wait, int, epoll_event*, int, int);
REAL(int, epoll_pwait, int, epoll_event*, int, int, const sigset_t*);
REAL(int, pipe, int*);
REAL(int, pipe2, int*, int);
REAL(int, socketpair, int, int, int, int*);
REAL(int, eventfd, unsigned, int);
REAL(int, gethostbyname_r, const char*, hostent*, char*, size_t, hostent**, int*);
REAL(hostent*, gethostbyname, const char*);
REAL(int, getaddrinfo, const char*, const char*, const addrinfo*, addrinfo**);
REAL(void, freeaddrinfo, addrinfo*);
REAL(int, gethostname, char*, size_t);

WRAP(int, socket, int d, int t, int p)
{
  Quiet q_;
  if (!in_sim()) return __real_socket(d, t, p);
  tick(US); yield("socket");
  if (!self()->foreign && knobs.socket_err_permille && faults_on() && chance(S_FAULT, knobs.socket_err_permille)) {
    fault(F_SOCKET_ERR); errno = EMFILE; log("socket EMFILE"); return -1;
  }
  SockP s = new_sock(); s->nonblock = t & SOCK_NONBLOCK;
  int fd = alloc_fd(s); log("socket fd %d sock %d", fd, s->id); return fd;
}
WRAP(int, bind, int fd, const sockaddr* a, socklen_t l)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_bind(fd, a, l);
  tick(US); yield("bind");
  SockP s = get(fd, "bind"); if (!s) return -1;
  const sockaddr_in* in = (const sockaddr_in*)a;
  uint32_t ip = ntohl(in->sin_addr.s_addr); int port = ntohs(in->sin_port);
  if (port) for (auto& w : all) {
    SockP o = w;
    // connections of an earlier listener, and those it closed first less than a minute ago, keep the port unless both sides agreed to share it
    if (o && o != s && o->st == Sock::CONN && !o->client && o->host == s->host && o->lport == port && (!o->closed || o->lingers > now()) && (!ip || o->lip == ip)) {
      probe("bind_over_old_connections");
      if (!(o->reuse && s->reuse)) { errno = EADDRINUSE; log("EADDRINUSE"); return -1; }
    }
    if (o && o != s && !o->closed && o->host == s->host && o->lport == port && (o->lip == ip || !o->lip || !ip) &&
        (o->st == Sock::LISTEN || (o->st == Sock::BOUND && !(o->reuse && s->reuse)))) { errno = EADDRINUSE; log("EADDRINUSE"); return -1; }
  }
  s->lip = ip; s->lport = port ? port : next_port++; s->st = Sock::BOUND;
  return 0;
}
WRAP(int, listen, int fd, int b)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_listen(fd, b);
  tick(US); yield("listen");
  SockP s = get(fd, "listen"); if (!s) return -1;
  if (s->st == Sock::BOUND && s->lport) {
    for (auto& w : all) { SockP o = w; if (o && o != s && !o->closed && o->st == Sock::LISTEN && o->host == s->host && o->lport == s->lport && (o->lip == s->lip || !o->lip || !s->lip)) { errno = EADDRINUSE; return -1; } }
  }
  if (s->st == Sock::NEW) s->lport = next_port++;
  s->st = Sock::LISTEN; s->backlog = b; log("listen port %d", s->lport);
  return 0;
}
static int do_accept(int fd, sockaddr* a, socklen_t* l, int fl)
{
  tick(US); yield("accept");
  SockP s = get(fd, "accept"); if (!s) return -1;
  s->ignored = 0;
  if (s->st != Sock::LISTEN) { errno = EINVAL; return -1; }
  if (s->acceptq.empty()) {
    if (s->nonblock) { errno = EAGAIN; return -1; }
    probe("accept_blocks");
    block([s] { return !s->acceptq.empty() || s->st != Sock::LISTEN; }, NEVER, "accept");
    if (s->st != Sock::LISTEN) { errno = EBADF; return -1; }
  }
  if (!s->foreign && !s->acceptq.front()->local && knobs.accept_err_permille && faults_on() && chance(S_FAULT, knobs.accept_err_permille)) {
    static const int e[] = {EMFILE, ECONNABORTED, ENFILE, ENOBUFS, ENOMEM, EPROTO};
    int k = e[choose(S_FAULT, 6)];
    // a pending connection is only thrown away when its peer is a scripted one
    SockP cp = s->acceptq.front()->peer.lock();
    if (cp && !cp->foreign && (k == ECONNABORTED || k == EPROTO)) k = EMFILE;
    fault(F_ACCEPT_ERR);
    if (k == ECONNABORTED || k == EPROTO) { SockP q = s->acceptq.front(); s->acceptq.pop_front(); q->closed = true; send_rst(q); kill(q, ECONNRESET); }
    errno = k; log("accept error %d", k); return -1;
  }
  SockP q = s->acceptq.front();
  int nfd = alloc_fd(q);
  if (nfd < 0) return -1;
  s->acceptq.pop_front();
  q->nonblock = fl & SOCK_NONBLOCK;
  fill(a, l, q->pip, q->pport);
  log("accept fd %d sock %d", nfd, q->id);
  return nfd;
}
WRAP(int, accept, int fd, sockaddr* a, socklen_t* l) { Quiet q_; return sim_fd(fd) ? do_accept(fd, a, l, 0) : __real_accept(fd, a, l); }
WRAP(int, accept4, int fd, sockaddr* a, socklen_t* l, int f) { Quiet q_; return sim_fd(fd) ? do_accept(fd, a, l, f) : __real_accept4(fd, a, l, f); }
WRAP(int, connect, int fd, const sockaddr* a, socklen_t l)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_connect(fd, a, l);
  tick(US); yield("connect");
  SockP s = get(fd, "connect"); if (!s) return -1;
  const sockaddr_in* in = (const sockaddr_in*)a;
  if (s->st == Sock::CONN) { errno = EISCONN; return -1; }
  if (s->st == Sock::CONNECTING) { errno = EALREADY; return -1; }
  uint32_t ip = ntohl(in->sin_addr.s_addr); int port = ntohs(in->sin_port);
  uint32_t dhost = is_loop(ip) ? s->host : ip;
  if (ip == 0) ip = 0x7f000001;
  s->local = dhost == s->host;
  if (s->local) s->sndcap = s->rcvcap = 262144;
  s->lip = is_loop(ip) ? ip : s->host; if (!s->lport) s->lport = next_port++;
  s->pip = ip; s->pport = port; s->st = Sock::CONNECTING;
  log("connect sock %d to %s:%d", s->id, ipstr(ip).c_str(), port);
  bool dead_port = refuses.count({ip, port}) || (!blackholes.count({ip, port}) && !listener(dhost, ip, port));
  if (dead_port && s->nonblock && chance(S_NET, knobs.refused_now_permille)) {
    fault(F_REFUSED); s->st = Sock::DEAD; s->fin_queued = true; probe("refused_immediately"); errno = ECONNREFUSED; return -1;
  }
  Time d = latency(*s);
  { auto sd = syn_delay.find({ip, port}); if (sd != syn_delay.end()) { d += sd->second; fault(F_DELAY); } }
  if (!s->local && knobs.stall_permille && faults_on() && chance(S_FAULT, knobs.stall_permille)) { d += (Time)choose(S_FAULT, 1000) * (knobs.stall_max / 1000); fault(F_STALL); }
  after(d, [s, dhost] { syn(s, dhost, 0); });
  if (s->nonblock) { errno = EINPROGRESS; return -1; }
  block([s] { return s->st != Sock::CONNECTING; }, NEVER, "connect");
  if (s->so_error) { errno = take_error(*s); return -1; }
  return 0;
}
WRAP(ssize_t, send, int fd, const void* b, size_t n, int f) { Quiet q_; return sim_fd(fd) ? do_send(fd, b, n, f, "send") : __real_send(fd, b, n, f); }
WRAP(ssize_t, recv, int fd, void* b, size_t n, int f) { Quiet q_; return sim_fd(fd) ? do_recv(fd, b, n, f, "recv") : __real_recv(fd, b, n, f); }
WRAP(ssize_t, sendto, int fd, const void* b, size_t n, int f, const sockaddr* a, socklen_t l) { Quiet q_; return sim_fd(fd) ? do_send(fd, b, n, f, "send") : __real_sendto(fd, b, n, f, a, l); }
WRAP(ssize_t, recvfrom, int fd, void* b, size_t n, int f, sockaddr* a, socklen_t* l) { Quiet q_; return sim_fd(fd) ? do_recv(fd, b, n, f, "recv") : __real_recvfrom(fd, b, n, f, a, l); }
WRAP(ssize_t, write, int fd, const void* b, size_t n) { Quiet q_; return sim_fd(fd) ? do_send(fd, b, n, 0, "write") : __real_write(fd, b, n); }
WRAP(ssize_t, read, int fd, void* b, size_t n) { Quiet q_; return sim_fd(fd) ? do_recv(fd, b, n, 0, "read") : __real_read(fd, b, n); }
static ssize_t iov_send(int fd, const iovec* v, int n, int f)
{
  std::string s; for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
  return do_send(fd, s.data(), s.size(), f, "send");
}
static ssize_t iov_recv(int fd, const iovec* v, int n, int f)
{
  for (int i = 0; i < n; ++i) if (v[i].iov_len) return do_recv(fd, v[i].iov_base, v[i].iov_len, f, "recv");
  return 0;
}
WRAP(ssize_t, writev, int fd, const iovec* v, int n) { Quiet q_; return sim_fd(fd) ? iov_send(fd, v, n, 0) : __real_writev(fd, v, n); }
WRAP(ssize_t, readv, int fd, const iovec* v, int n) { Quiet q_; return sim_fd(fd) ? iov_recv(fd, v, n, 0) : __real_readv(fd, v, n); }
WRAP(ssize_t, sendmsg, int fd, const msghdr* m, int f) { Quiet q_; return sim_fd(fd) ? iov_send(fd, m->msg_iov, (int)m->msg_iovlen, f) : __real_sendmsg(fd, m, f); }
WRAP(ssize_t, recvmsg, int fd, msghdr* m, int f) { Quiet q_; return sim_fd(fd) ? iov_recv(fd, m->msg_iov, (int)m->msg_iovlen, f) : __real_recvmsg(fd, m, f); }

// Waits until scan() > 0; returns its value, 0 on timeout, -1 on EINTR.
static int wait_ready(std::function<int()> scan, Time timeout)
{
  int n = scan();
  if (n || timeout == 0) return n;
  Time dl = timeout < 0 ? NEVER : now() + timeout;
  if (knobs.eintr_permille && !self()->foreign && faults_on() && chance(S_FAULT, knobs.eintr_permille)) {
    Time e = now() + 1 + choose(S_FAULT, 1000) * 100 * US;
    if (e < dl) {
      block([&] { return scan() > 0; }, e, "poll");
      n = scan();
      if (n) return n;
      fault(F_EINTR); errno = EINTR; log("EINTR"); return -1;
    }
  }
  block([&] { return scan() > 0; }, dl, "poll");
  return scan();
}
static int do_poll(pollfd* p, nfds_t n, Time timeout)
{
  tick(US); yield("poll");
  for (nfds_t i = 0; i < n; ++i) if (p[i].fd >= LIB_BASE && p[i].fd < LIB_END && !fds.count(p[i].fd)) get(p[i].fd, "poll");
  int r = wait_ready([p, n] {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      if (p[i].fd < 0) continue;
      auto f = fds.find(p[i].fd);
      if (f == fds.end() || ready(*f->second, p[i].events)) ++c;
    }
    return c; }, timeout);
  if (r < 0) return r;
  int c = 0;
  for (nfds_t i = 0; i < n; ++i) {
    p[i].revents = 0;
    if (p[i].fd < 0) continue;
    auto f = fds.find(p[i].fd);
    p[i].revents = f == fds.end() ? POLLNVAL : ready(*f->second, p[i].events);
    if (p[i].revents) ++c;
    if (f != fds.end() && p[i].revents & POLLIN && !f->second->foreign) ignored_most = std::max(ignored_most, ++f->second->ignored);
  }
  log("poll %d of %d", c, (int)n);
  return c;
}
WRAP(int, poll, pollfd* p, nfds_t n, int to)
{
  Quiet q_;
  if (!in_sim() || (n && !range_fd(p[0].fd) && p[0].fd >= 0)) return __real_poll(p, n, to);
  return do_poll(p, n, to < 0 ? -1 : (Time)to * MS);
}
WRAP(int, ppoll, pollfd* p, nfds_t n, const timespec* ts, const sigset_t* ss)
{
  Quiet q_;
  if (!in_sim() || (n && !range_fd(p[0].fd) && p[0].fd >= 0)) return __real_ppoll(p, n, ts, ss);
  return do_poll(p, n, ts ? (Time)ts->tv_sec * SEC + ts->tv_nsec : -1);
}
WRAP(int, select, int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
  Quiet q_;
  if (!in_sim()) return __real_select(n, r, w, e, tv);
  tick(US); yield("select");
  fd_set r0, w0; FD_ZERO(&r0); FD_ZERO(&w0);
  if (r) r0 = *r;
  if (w) w0 = *w;
  auto scan = [&](fd_set* ro, fd_set* wo) {
    int c = 0;
    for (int i = 0; i < n; ++i) {
      auto f = fds.find(i);
      if (f == fds.end()) continue;
      short m = ready(*f->second, POLLIN | POLLOUT);
      if (FD_ISSET(i, &r0) && (m & (POLLIN | POLLHUP | POLLERR))) { ++c; if (ro) FD_SET(i, ro); }
      if (FD_ISSET(i, &w0) && (m & (POLLOUT | POLLERR))) { ++c; if (wo) FD_SET(i, wo); }
    }
    return c; };
  int k = wait_ready([&] { return scan(nullptr, nullptr); }, tv ? (Time)tv->tv_sec * SEC + tv->tv_usec * US : -1);
  if (k < 0) return k;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  return scan(r, w);
}
WRAP(int, close, int fd)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_close(fd);
  tick(US); yield("close");
  SockP s = get(fd, "close"); if (!s) return -1;
  fds.erase(fd);
  log("close fd %d sock %d", fd, s->id);
  release(s);
  return 0;
}
WRAP(int, shutdown, int fd, int how)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_shutdown(fd, how);
  tick(US); yield("shutdown");
  SockP s = get(fd, "shutdown"); if (!s) return -1;
  if (s->st != Sock::CONN) { errno = ENOTCONN; return -1; }
  log("shutdown sock %d how %d", s->id, how);
  if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
  if (how == SHUT_WR || how == SHUT_RDWR) { s->fin_queued = true; pump(s); }
  return 0;
}
static int do_fcntl(int fd, int cmd, long arg)
{
  SockP s = get(fd, "fcntl"); if (!s) return -1;
  switch (cmd) {
  case F_SETFL: s->nonblock = arg & O_NONBLOCK; return 0;
  case F_GETFL: return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  case F_DUPFD: case F_DUPFD_CLOEXEC: return alloc_fd(s);
  default: return 0;
  }
}
WRAP(int, fcntl, int fd, int cmd, ...)
{
  Quiet q_;
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!sim_fd(fd)) return __real_fcntl(fd, cmd, arg);
  yield("fcntl"); return do_fcntl(fd, cmd, arg);
}
WRAP(int, fcntl64, int fd, int cmd, ...)
{
  Quiet q_;
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!sim_fd(fd)) return __real_fcntl(fd, cmd, arg);
  yield("fcntl"); return do_fcntl(fd, cmd, arg);
}
WRAP(int, ioctl, int fd, unsigned long rq, ...)
{
  Quiet q_;
  va_list ap; va_start(ap, rq); void* arg = va_arg(ap, void*); va_end(ap);
  if (!sim_fd(fd)) return __real_ioctl(fd, rq, arg);
  SockP s = get(fd, "ioctl"); if (!s) return -1;
  if (rq == FIONBIO) { s->nonblock = *(int*)arg != 0; return 0; }
  if (rq == FIONREAD) { *(int*)arg = (int)s->rx_avail(); return 0; }
  errno = EINVAL; return -1;
}
WRAP(int, setsockopt, int fd, int lv, int o, const void* v, socklen_t l)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_setsockopt(fd, lv, o, v, l);
  SockP s = get(fd, "setsockopt"); if (!s) return -1;
  if (lv == SOL_SOCKET && o == SO_REUSEADDR) s->reuse = *(const int*)v;
  if (lv == SOL_SOCKET && o == SO_LINGER) { const linger* g = (const linger*)v; s->linger0 = g->l_onoff && !g->l_linger; }
  return 0;
}
WRAP(int, getsockopt, int fd, int lv, int o, void* v, socklen_t* l)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_getsockopt(fd, lv, o, v, l);
  SockP s = get(fd, "getsockopt"); if (!s) return -1;
  int r = 0;
  if (lv == SOL_SOCKET && o == SO_ERROR) r = take_error(*s);
  else if (lv == SOL_SOCKET && o == SO_TYPE) r = SOCK_STREAM;
  else if (lv == SOL_SOCKET && o == SO_SNDBUF) r = (int)s->sndcap;
  else if (lv == SOL_SOCKET && o == SO_RCVBUF) r = (int)s->rcvcap;
  memcpy(v, &r, std::min<size_t>(*l, sizeof r)); *l = sizeof r;
  return 0;
}
WRAP(int, getsockname, int fd, sockaddr* a, socklen_t* l)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_getsockname(fd, a, l);
  SockP s = get(fd, "getsockname"); if (!s) return -1;
  fill(a, l, s->lip, s->lport); return 0;
}
WRAP(int, getpeername, int fd, sockaddr* a, socklen_t* l)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_getpeername(fd, a, l);
  SockP s = get(fd, "getpeername"); if (!s) return -1;
  if (s->st != Sock::CONN) { errno = ENOTCONN; return -1; }
  fill(a, l, s->pip, s->pport); return 0;
}
WRAP(int, dup, int fd)
{
  Quiet q_;
  if (!sim_fd(fd)) return __real_dup(fd);
  SockP s = get(fd, "dup"); if (!s) return -1;
  return alloc_fd(s);
}
static int do_dup2(int fd, int to)
{
  SockP s = get(fd, "dup2"); if (!s) return -1;
  if (fd == to) return to;
  if (fds.count(to)) __wrap_close(to);
  fds[to] = s; ++s->refs; return to;
}
WRAP(int, dup2, int fd, int to) { Quiet q_; return sim_fd(fd) && range_fd(to) ? do_dup2(fd, to) : __real_dup2(fd, to); }
WRAP(int, dup3, int fd, int to, int f) { Quiet q_; return sim_fd(fd) && range_fd(to) ? do_dup2(fd, to) : __real_dup3(fd, to, f); }
WRAP(int, pselect, int n, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t* m)
{
  Quiet q_;
  if (!in_sim()) return __real_pselect(n, r, w, e, ts, m);
  timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
  return __wrap_select(n, r, w, e, ts ? &tv : nullptr);
}
// epoll, not used by the library now: level-triggered, edge-triggered interest is served as level-triggered
static int make_epoll() { tick(US); yield("epoll_create"); SockP s = new_sock(); s->evt = s->inner = true; s->ep.reset(new std::map<int, EpItem>); s->st = Sock::CONN; return alloc_fd(s); }
WRAP(int, epoll_create, int n) { Quiet q_; return in_sim() ? make_epoll() : __real_epoll_create(n); }
WRAP(int, epoll_create1, int f) { Quiet q_; return in_sim() ? make_epoll() : __real_epoll_create1(f); }
WRAP(int, epoll_ctl, int ep, int what, int fd, epoll_event* ev)
{
  Quiet q_;
  if (!sim_fd(ep)) return __real_epoll_ctl(ep, what, fd, ev);
  yield("epoll_ctl");
  SockP e = get(ep, "epoll_ctl"); if (!e) return -1;
  if (what == EPOLL_CTL_DEL && !fds.count(fd)) { errno = EBADF; return -1; }     // closing has removed it already; saying so again is harmless
  SockP s = get(fd, "epoll_ctl"); if (!s) return -1;
  if (!e->ep) { errno = EINVAL; return -1; }
  auto i = e->ep->find(fd); if (i != e->ep->end() && i->second.s.lock() != s) { e->ep->erase(i); i = e->ep->end(); }
  if ((what == EPOLL_CTL_ADD) == (i != e->ep->end())) { errno = what == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; }
  if (what == EPOLL_CTL_DEL) e->ep->erase(i); else (*e->ep)[fd] = EpItem{s, ev->events, ev->data.u64};
  return 0;
}
WRAP(int, epoll_wait, int ep, epoll_event* out, int max, int to)
{
  Quiet q_;
  if (!sim_fd(ep)) return __real_epoll_wait(ep, out, max, to);
  tick(US); yield("epoll_wait");
  SockP e = get(ep, "epoll_wait"); if (!e) return -1;
  auto scan = [&](epoll_event* o) {
    int c = 0;
    for (auto& x : *e->ep) {
      SockP s = x.second.s.lock(); auto f = fds.find(x.first);
      if (!s || f == fds.end() || f->second != s || !x.second.ev) continue;
      short m = ready(*s, (short)(x.second.ev & 0xffff)); if (!m) continue;
      if (o) { if (c == max) break; o[c].events = m; o[c].data.u64 = x.second.data; if (m & POLLIN && !s->foreign) ignored_most = std::max(ignored_most, ++s->ignored); if (x.second.ev & EPOLLONESHOT) x.second.ev = 0; }
      ++c;
    }
    return c; };
  int r = wait_ready([&] { return scan(nullptr); }, to < 0 ? -1 : (Time)to * MS);
  if (r < 0) return r;
  r = scan(out); log("epoll %d", r); return r;
}
WRAP(int, epoll_pwait, int ep, epoll_event* out, int max, int to, const sigset_t* m) { return sim_fd(ep) ? __wrap_epoll_wait(ep, out, max, to) : __real_epoll_pwait(ep, out, max, to, m); }
static int make_pair(int* v, bool nb)
{
  SockP a = new_sock(), b = new_sock();
  a->inner = b->inner = true;   a->peer = b; b->peer = a; a->st = b->st = Sock::CONN; a->local = b->local = true; a->nonblock = b->nonblock = nb;
  a->sndcap = a->rcvcap = b->sndcap = b->rcvcap = 65536;
  v[0] = alloc_fd(a); v[1] = alloc_fd(b);
  return 0;
}
WRAP(int, pipe, int* v) { Quiet q_; return in_sim() ? make_pair(v, false) : __real_pipe(v); }
WRAP(int, pipe2, int* v, int f) { Quiet q_; return in_sim() ? make_pair(v, f & O_NONBLOCK) : __real_pipe2(v, f); }
WRAP(int, socketpair, int d, int t, int p, int* v) { Quiet q_; return in_sim() ? make_pair(v, t & SOCK_NONBLOCK) : __real_socketpair(d, t, p, v); }
WRAP(int, eventfd, unsigned c, int f)
{
  Quiet q_;
  if (!in_sim()) return __real_eventfd(c, f);
  SockP s = new_sock(); s->evt = s->inner = true; s->evcount = c; s->nonblock = f & EFD_NONBLOCK; s->st = Sock::CONN;
  return alloc_fd(s);
}
// name resolution: returns 0 and ip, or an h_errno value
static int lookup(const char* name, uint32_t* ip)
{
  tick(US); yield("lookup");
  if (knobs.lat_max) { Time d = (Time)choose(S_NET, 8) * knobs.lat_max; if (d) sim::sleep(d); }
  in_addr a;
  if (inet_aton(name, &a)) { *ip = ntohl(a.s_addr); return 0; }
  if (dns_fn) { int e = dns_fn(name); if (e) { fault(F_DNS); log("lookup fails"); return e; } }
  if (knobs.dns_fail_permille && faults_on() && chance(S_FAULT, knobs.dns_fail_permille)) { fault(F_DNS); log("lookup fails"); return TRY_AGAIN; }
  if (!strcmp(name, "localhost")) { *ip = 0x7f000001; return 0; }
  auto h = hosts.find(name);
  if (h == hosts.end()) return HOST_NOT_FOUND;
  *ip = h->second; return 0;
}
WRAP(int, gethostbyname_r, const char* name, hostent* he, char* buf, size_t len, hostent** res, int* err)
{
  Quiet q_;
  if (!in_sim()) return __real_gethostbyname_r(name, he, buf, len, res, err);
  uint32_t ip; int e = lookup(name, &ip);
  if (e) { *res = nullptr; *err = e; return e == TRY_AGAIN ? EAGAIN : 0; }
  size_t nl = strlen(name) + 1, na = 1; auto hm = host_more.find(name); if (hm != host_more.end()) na += hm->second;   // names with many addresses need room
  if (len < nl + na * (sizeof(char*) + 4) + 64) { probe("lookup_no_room"); *res = nullptr; *err = NETDB_INTERNAL; errno = ERANGE; return ERANGE; }
  char* p = buf; p += (16 - ((uintptr_t)p & 15)) & 15;
  char** lst = (char**)p; p += (na + 2) * sizeof(char*);
  uint32_t n = htonl(ip); for (size_t i = 0; i < na; ++i, p += 4) { memcpy(p, &n, 4); lst[i] = p; }
  lst[na] = lst[na + 1] = nullptr;
  memcpy(p, name, nl);
  he->h_name = p; he->h_aliases = lst + na + 1; he->h_addrtype = AF_INET; he->h_length = 4; he->h_addr_list = lst;
  *res = he; *err = 0; return 0;
}
WRAP(hostent*, gethostbyname, const char* name)
{
  Quiet q_;
  if (!in_sim()) return __real_gethostbyname(name);
  static char buf[16384]; static hostent he; hostent* r; int e;
  __wrap_gethostbyname_r(name, &he, buf, sizeof buf, &r, &e);
  yield("dns");                  // the result is in shared storage
  return r;
}
static std::set<addrinfo*> ais;
WRAP(int, getaddrinfo, const char* n, const char* svc, const addrinfo* h, addrinfo** res)
{
  Quiet q_;
  if (!in_sim()) return __real_getaddrinfo(n, svc, h, res);
  uint32_t ip = 0; int e = n ? lookup(n, &ip) : 0;
  if (e) return e == TRY_AGAIN ? EAI_AGAIN : EAI_NONAME;
  addrinfo* a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
  sockaddr_in* in = (sockaddr_in*)(a + 1);
  in->sin_family = AF_INET; in->sin_addr.s_addr = htonl(ip); in->sin_port = htons(svc ? atoi(svc) : 0);
  a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP; a->ai_addrlen = sizeof *in; a->ai_addr = (sockaddr*)in;
  ais.insert(a); *res = a; return 0;
}
WRAP(void, freeaddrinfo, addrinfo* a) { Quiet q_; if (ais.erase(a)) free(a); else __real_freeaddrinfo(a); }
WRAP(int, gethostname, char* b, size_t n) { Quiet q_; if (!in_sim()) return __real_gethostname(b, n); snprintf(b, n, "simhost"); return 0; }
