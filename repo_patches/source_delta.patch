From 13db9ee577dad450849fe22a2e59915a75ef6f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 01/30] fix: let worker pool destruction always finish

A worker that was busy or still starting when destruction began missed
the only wake-up and then waited forever. Workers now look at the
destruction flag before they wait.

The two locks were also taken in opposite orders by the destructor and
the workers, which could deadlock. The destructor now releases the first
lock before it takes the second.
---
 libiqxmlrpc/executor.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..d8164f1 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -99,6 +99,9 @@ void Pool_executor_factory::Pool_thread::operator ()()
 
     if (pool->req_queue.empty())
     {
+      if (pool->is_being_destructed())
+        return;
+
       pool->req_queue_cond.wait(lk);
 
       if (pool->is_being_destructed())
@@ -170,10 +173,12 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
-  scoped_lock lk_(req_queue_lock);
+  scoped_lock lk(req_queue_lock);
   req_queue_cond.notify_all();
 }
 
-- 
2.43.0


From 8f850f1f86b1c01eb75850ef46b1cd034e535e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 02/30] fix: do not reuse a keep-alive connection after a
 failed call

After a timeout or a network error the client kept its connection, so
the late answer to the failed call was returned as the answer to the
next one.
---
 libiqxmlrpc/client.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..8cd7c05 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -52,6 +52,12 @@ public:
       cimpl().conn_cache.reset();
   }
 
+  //! Forget connection which is in unknown state.
+  void drop()
+  {
+    cimpl().conn_cache.reset();
+  }
+
   Client_connection* operator ->()
   {
     return conn_ptr_;
@@ -137,7 +143,14 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try {
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... )
+  {
+    conn.drop();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 0e3697108f7cb6639c0ad497703bc206e95aefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 03/30] fix: read once per readiness event in the client

When a read filled the buffer exactly, the client read again without
waiting. With no more data at hand that read failed and so did the call.
---
 libiqxmlrpc/http_client.cc  | 11 +++++------
 libiqxmlrpc/https_client.cc | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..33ffdd2 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,12 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..1fb8393 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -96,13 +96,12 @@ void Https_proxy_client_connection::handle_output( bool& )
 
 void Https_proxy_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
 
   if( resp_packet )
   {
-- 
2.43.0


From 8ef91827af850d895eb115fb6c201cc202c8f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 04/30] fix: close connections refused by the firewall

Refused sockets were never closed, and a refused peer that had already
reset its connection made the serving loop end with an exception.

The zero linger time is dropped because closing such a socket discards
the refusal message.
---
 libiqxmlrpc/acceptor.cc | 25 +++++++++++++++++++------
 libiqxmlrpc/acceptor.h  |  1 +
 libiqxmlrpc/socket.cc   |  2 --
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..d5f89aa 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -49,21 +49,34 @@ inline void Acceptor::listen()
 }
 
 
-void Acceptor::accept()
+void Acceptor::reject( Socket& new_sock )
 {
-  Socket new_sock( sock.accept() );
-
-  if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
-  {
-    std::string msg = firewall->message();
+  std::string msg = firewall->message();
 
+  try {
     if (!msg.empty())
     {
       new_sock.send_shutdown(msg.c_str(), msg.size());
     } else {
       new_sock.shutdown();
     }
+  }
+  catch( const network_error& )
+  {
+    // peer has already gone
+  }
 
+  new_sock.close();
+}
+
+
+void Acceptor::accept()
+{
+  Socket new_sock( sock.accept() );
+
+  if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
+  {
+    reject( new_sock );
     return;
   }
 
diff --git a/libiqxmlrpc/acceptor.h b/libiqxmlrpc/acceptor.h
index dbb7954..d812c46 100644
--- a/libiqxmlrpc/acceptor.h
+++ b/libiqxmlrpc/acceptor.h
@@ -40,6 +40,7 @@ protected:
   Socket::Handler get_handler() const { return sock.get_handler(); }
 
   void accept();
+  void reject( Socket& );
   void listen();
 };
 
diff --git a/libiqxmlrpc/socket.cc b/libiqxmlrpc/socket.cc
index ea3463f..26eee96 100644
--- a/libiqxmlrpc/socket.cc
+++ b/libiqxmlrpc/socket.cc
@@ -96,8 +96,6 @@ size_t Socket::recv( char* buf, size_t len )
 void Socket::send_shutdown( const char* data, size_t len )
 {
   send(data, len);
-  const struct linger ling = {1, 0};
-  ::setsockopt( sock, SOL_SOCKET, SO_LINGER, reinterpret_cast<const char*>(&ling), sizeof(ling) );
   ::shutdown( sock, 1 );
 }
 
-- 
2.43.0


From f08b885852065f3f4c07c18ea02b018dbd2f2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 05/30] fix: keep serving when accepting a connection fails

Errors such as an aborted connection or a temporary lack of descriptors
ended the serving loop with an exception.
---
 libiqxmlrpc/acceptor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index d5f89aa..98066b8 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -39,7 +39,13 @@ void Acceptor::set_firewall( iqnet::Firewall_base* fw )
 
 void Acceptor::handle_input( bool& )
 {
-  accept();
+  try {
+    accept();
+  }
+  catch( const network_error& )
+  {
+    // A connection that failed to be accepted must not stop the others.
+  }
 }
 
 
-- 
2.43.0


From 8dd74e416d2f2721ea667251b13dd1af024ba4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:27 +0000
Subject: [PATCH 06/30] fix: close the socket when connecting fails

A refused connection or a failed name lookup leaked the descriptor.
---
 libiqxmlrpc/connector.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..f5b8e40 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -32,10 +32,8 @@ struct Connect_processor: public Event_handler {
     terminate = true;
     int err = sock.get_last_error();
 
-    if (err && err != IQXMLRPC_INPROGRESS) {
-      sock.close();
+    if (err && err != IQXMLRPC_INPROGRESS)
       throw network_error("Connector", true, err);
-    }
   }
 };
 
@@ -53,17 +51,21 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
-
-  if (done)
-    return create_connection( connector.sock );
 
-  reactor.register_handler( &connector, Reactor_base::OUTPUT );
+  try {
+    if (!connector.sock.connect( peer_addr ))
+    {
+      reactor.register_handler( &connector, Reactor_base::OUTPUT );
 
-  int ms = timeout > 0 ? timeout*1000 : -1;
-  if (!reactor.handle_events(ms)) {
+      int ms = timeout > 0 ? timeout*1000 : -1;
+      if (!reactor.handle_events(ms))
+        throw iqxmlrpc::Client_timeout();
+    }
+  }
+  catch( ... )
+  {
     connector.sock.close();
-    throw iqxmlrpc::Client_timeout();
+    throw;
   }
 
   return create_connection( connector.sock );
-- 
2.43.0


From 9b32b2fef5c2f984f7d95fb6bf24465473686596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 07/30] fix: resume an interrupted wait for network events

A signal made the wait return as if an event had happened. A client
that was still connecting then took the connection for established, and
every signal restarted the timeout.
---
 libiqxmlrpc/reactor_poll_impl.cc | 35 ++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/libiqxmlrpc/reactor_poll_impl.cc b/libiqxmlrpc/reactor_poll_impl.cc
index 13bedc4..e89b750 100644
--- a/libiqxmlrpc/reactor_poll_impl.cc
+++ b/libiqxmlrpc/reactor_poll_impl.cc
@@ -6,8 +6,11 @@
 #ifdef HAVE_POLL
 #include "reactor_poll_impl.h"
 
+#include <algorithm>
 #include <deque>
+#include <errno.h>
 #include <sys/poll.h>
+#include <time.h>
 #include <vector>
 
 using namespace iqnet;
@@ -42,23 +45,37 @@ void Reactor_poll_impl::reset(const HandlerStateList& in)
   }
 }
 
+namespace {
+
+long long now_ms()
+{
+  struct timespec ts;
+  ::clock_gettime( CLOCK_MONOTONIC, &ts );
+  return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
+}
+
+} // anonymous namespace
+
 bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
 {
-  do {
-    int code = ::poll( &impl->pfd[0], impl->pfd.size(), to_ms );
+  const long long deadline = to_ms > 0 ? now_ms() + to_ms : 0;
 
-    if( code < 0 )
-    {
-      if (errno == EINTR)
-        continue;
+  for(;;)
+  {
+    int code = ::poll( &impl->pfd[0], impl->pfd.size(), to_ms );
 
-      throw network_error( "poll()" );
-    }
+    if( code > 0 )
+      break;
 
     if( !code )
       return false;
 
-  } while (false);
+    if( errno != EINTR )
+      throw network_error( "poll()" );
+
+    if( to_ms > 0 )
+      to_ms = static_cast<Reactor_base::Timeout>( std::max( deadline - now_ms(), 0LL ) );
+  }
 
   for( unsigned i = 0; i < impl->pfd.size(); i++ )
   {
-- 
2.43.0


From 54bd6f982b54737d45db0f03c1c4ead4eb5850ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 08/30] fix: look a host name up again after a failed lookup

A failed lookup left an empty address behind, so every later call of
the same client used that address and failed.
---
 libiqxmlrpc/inet_addr.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..bdc0070 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -92,12 +92,13 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
+  SystemSockAddrIn addr = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
-  sa->sin_family = PF_INET;
-  sa->sin_port = htons(port);
-  memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
+  addr.sin_family = PF_INET;
+  addr.sin_port = htons(port);
+  memcpy( (char*)&(addr.sin_addr), (char*)hent->h_addr, hent->h_length );
+  sa = addr;
 }
 
 Inet_addr::Inet_addr( const std::string& host, int port ):
-- 
2.43.0


From 641d773c3ffdcf4f81575d6070fb07eace5b7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 09/30] fix: resolve a shared address object under a lock

Copies of an address share their state. Clients in different threads
built from one address could use it while another thread was still
filling it in.
---
 libiqxmlrpc/inet_addr.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index bdc0070..5558769 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -2,6 +2,7 @@
 //  Copyright (C) 2011 Anton Dedov
 
 #include <boost/optional.hpp>
+#include <boost/thread/mutex.hpp>
 #include "inet_addr.h"
 #include "net_except.h"
 
@@ -57,6 +58,7 @@ typedef struct sockaddr_in SystemSockAddrIn;
 
 struct Inet_addr::Impl {
   mutable boost::optional<SystemSockAddrIn> sa;
+  mutable boost::mutex sa_lock;
   std::string host;
   int port;
 
@@ -119,6 +121,8 @@ Inet_addr::Inet_addr( const SystemSockAddrIn& sa ):
 const SystemSockAddrIn*
 Inet_addr::get_sockaddr() const
 {
+  boost::mutex::scoped_lock lk(impl_->sa_lock);
+
   if (!impl_->sa) {
     impl_->init_sockaddr();
   }
-- 
2.43.0


From e451b26bbab90c3970a7478845cf2199f378e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 10/30] fix: end an HTTP header at its first blank line

A header with LF line ends was extended into the body when the body
contained a CRLF blank line, depending on how the bytes were segmented.
---
 libiqxmlrpc/http.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..ec44473 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -435,9 +435,11 @@ bool Packet_reader::read_header( const std::string& s )
 
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
+  iterator_range<std::string::iterator> j = find_first(header_cache, "\n\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  // whichever comes first ends the header, the other one may belong to content
+  if( i.begin() == i.end() || (j.begin() != j.end() && j.begin() < i.begin()) )
+    i = j;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From fb69a369995b00b59f128c93b8279f63b2e719f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 11/30] fix: invite every request that expects 100-continue

Only the first such request of a keep-alive connection was invited to
send its body, later ones waited forever.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index ec44473..a04f453 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -411,6 +411,7 @@ void Packet_reader::clear()
   content_cache.erase();
   header_cache.erase();
   constructed = false;
+  continue_sent_ = false;
   total_sz = 0;
 }
 
-- 
2.43.0


From dddb0dfb97f97367fa7a25eac24d99d172eaf2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 12/30] fix: do not read from a connection while a response is
 being sent

While an error response or an interim 100 response was being sent, more
input could overwrite it half way, grow the buffered request without
limit, or, when the peer had half-closed, drop the connection before the
response was out.
---
 libiqxmlrpc/http_server.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..49f24a4 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -126,6 +126,8 @@ void Http_server_connection::handle_output( bool& terminate )
 
 void Http_server_connection::do_schedule_response()
 {
+  // do not read further until response is sent
+  reactor->unregister_handler( this, iqnet::Reactor_base::INPUT );
   reactor->register_handler( this, iqnet::Reactor_base::OUTPUT );
 }
 
-- 
2.43.0


From bdd2626c5bb4552dab2525d6307cad55bc85b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 13/30] fix: answer malformed credentials with 401

Credentials that are not valid base64 were answered with an XML-RPC
fault instead of the unauthorized error.
---
 libiqxmlrpc/http.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index a04f453..a3eda1e 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -312,8 +312,16 @@ void Request_header::get_authinfo(std::string& user, std::string& pw) const
   if (v[0] != "basic")
     throw Unauthorized();
 
-  boost::scoped_ptr<Binary_data> bin_authinfo( Binary_data::from_base64(v[1]) );
-  std::string data = bin_authinfo->get_data();
+  std::string data;
+
+  try {
+    boost::scoped_ptr<Binary_data> bin_authinfo( Binary_data::from_base64(v[1]) );
+    data = bin_authinfo->get_data();
+  }
+  catch( const Binary_data::Malformed_base64& )
+  {
+    throw Unauthorized();
+  }
 
   size_t colon_it = data.find_first_of(":");
   user = data.substr(0, colon_it);
-- 
2.43.0


From 07357f0e1a49395736a37140854f23eb384a7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 14/30] fix: close the sockets of the reactor interrupter

Each server object leaked the temporary listening socket and the
writing end of its wake-up connection.
---
 libiqxmlrpc/reactor_interrupter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..68af655 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -42,7 +42,7 @@ private:
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
-  ~Impl() {}
+  ~Impl() { client_.close(); }
 
   void make_interrupt();
 
@@ -63,6 +63,8 @@ Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
   client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
   Socket srv_conn(srv.accept());
 
+  srv.close();
+
   server_.reset(new Interrupter_connection(reactor, srv_conn));
 }
 
-- 
2.43.0


From 4116fc902b42f7d4efd4975e666d73530b58363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 15/30] fix: write log lines of concurrent methods one at a
 time

Methods running in worker threads write to the same stream, and their
lines could be mixed up.
---
 libiqxmlrpc/server.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 180eb55..8437a41 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -3,6 +3,7 @@
 
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <memory>
 
 #include "server.h"
@@ -31,6 +32,7 @@ public:
 
   bool exit_flag;
   std::ostream* log;
+  boost::mutex log_lock;
   size_t max_req_sz;
   http::Verification_level ver_level;
 
@@ -142,6 +144,8 @@ void Server::set_auth_plugin( const Auth_Plugin_base& ap )
 
 void Server::log_err_msg( const std::string& msg )
 {
+  boost::mutex::scoped_lock lk(impl->log_lock);
+
   if( impl->log )
     *impl->log << msg << std::endl;
 }
-- 
2.43.0


From 2e8d24ee87f294bc86098316444af35c4c2badea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:30 +0000
Subject: [PATCH 16/30] fix: read a nil value up to its closing tag

A nil inside an array or a struct left its end tag unread.
The enclosing array or struct then ended too early, so the values after
the nil were lost or the message was refused.
---
 libiqxmlrpc/value_parser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..7190e9f 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -163,10 +163,12 @@ ValueBuilder::do_visit_element(const std::string& tagname)
   switch (state_.change(tagname)) {
   case STRUCT:
     retval.reset(sub_build<Value_type*, StructBuilder>(true));
+    want_exit();
     break;
 
   case ARRAY:
     retval.reset(sub_build<Value_type*, ArrayBuilder>(true));
+    want_exit();
     break;
 
   case NIL:
@@ -177,9 +179,6 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     // wait for text within <i4>...</i4>, etc...
     break;
   }
-
-  if (retval.get())
-    want_exit();
 }
 
 void
-- 
2.43.0


From ea8ea886dc03a64245847720d594da8206670417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 17/30] fix: keep strings that consist of white space

The XML reader reports such text as a separate kind of node, which the
parser skipped. A string of blanks was received as an empty string.
---
 libiqxmlrpc/parser2.cc      | 2 +-
 libiqxmlrpc/value_parser.cc | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..ce4c5cf 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -135,7 +135,7 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT || type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 7190e9f..9594bb3 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -224,6 +224,11 @@ ValueBuilder::do_visit_text(const std::string& text)
 {
   using boost::lexical_cast;
 
+  // white space around tags is not a value, but within <string> it is
+  bool within_string = state_.get_state() == STRING && !retval.get();
+  if (!within_string && text.find_first_not_of(" \t\r\n") == std::string::npos)
+    return;
+
   switch (state_.get_state()) {
   case VALUE:
     want_exit();
-- 
2.43.0


From fdd6b982fac1a28a485ad58f4dc34a3a6d1b89ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:31 +0000
Subject: [PATCH 18/30] fix: do not build error messages from a missing reason
 text

OpenSSL has no reason text for some codes and returns a null pointer.
Constructing a string from it ended the process on the first TLS read
that had to wait for more data.
---
 libiqxmlrpc/ssl_lib.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..63de0d5 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,20 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+std::string
+error_reason(unsigned long err)
+{
+  const char* s = ERR_reason_error_string(err);
+  return s ? s : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( error_reason(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +281,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( error_reason(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From e38c14adab54683b8d30147a138500676b159ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:49 +0000
Subject: [PATCH 19/30] fix: keep TLS errors of one connection away from the
 others

The OpenSSL error queue belongs to the thread. An error left there by one
connection made the next operation on another connection look failed.
---
 libiqxmlrpc/ssl_connection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 8eb4624..72a2d33 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -44,6 +44,7 @@ void ssl::Connection::post_connect()
 void ssl::Connection::ssl_accept()
 {
   ssl_ctx->prepare_verify(ssl, true);
+  ERR_clear_error(); // errors of other connections must not be seen here
   int ret = SSL_accept( ssl );
 
   if( ret != 1 )
@@ -54,6 +55,7 @@ void ssl::Connection::ssl_accept()
 void ssl::Connection::ssl_connect()
 {
   ssl_ctx->prepare_verify(ssl, false);
+  ERR_clear_error();
   int ret = SSL_connect( ssl );
 
   if( ret != 1 )
@@ -66,6 +68,7 @@ void ssl::Connection::shutdown()
   if( shutdown_recved() && shutdown_sent() )
     return;
 
+  ERR_clear_error();
   int ret = SSL_shutdown( ssl );
   switch( ret )
   {
@@ -85,6 +88,7 @@ void ssl::Connection::shutdown()
 
 size_t ssl::Connection::send( const char* data, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_write( ssl, data, static_cast<int>(len) );
 
   if( static_cast<size_t>(ret) != len )
@@ -96,6 +100,7 @@ size_t ssl::Connection::send( const char* data, size_t len )
 
 size_t ssl::Connection::recv( char* buf, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_read( ssl, buf, static_cast<int>(len) );
 
   if( ret <= 0 )
-- 
2.43.0


From c84840373a1460ef0794a79dfc8ba2467ff138cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:19 +0000
Subject: [PATCH 20/30] fix: do not raise SIGPIPE when a TLS peer has gone

Plain connections already send without the signal.
Over TLS a peer that disconnected early could end the whole process.
---
 libiqxmlrpc/ssl_connection.cc | 55 ++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 72a2d33..9ce86c2 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -1,11 +1,64 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
+#include <openssl/bio.h>
 #include <openssl/err.h>
+#include <boost/thread/once.hpp>
 #include "ssl_connection.h"
 
 using namespace iqnet;
 
+#if defined(MSG_NOSIGNAL) && OPENSSL_VERSION_NUMBER >= 0x10100000L
+namespace {
+
+boost::once_flag bio_init = BOOST_ONCE_INIT;
+BIO_METHOD* bio_method = 0;
+
+int bio_send( BIO* bio, const char* data, int len )
+{
+  int fd = -1;
+  BIO_get_fd( bio, &fd );
+
+  int ret = ::send( fd, data, len, MSG_NOSIGNAL );
+  BIO_clear_retry_flags( bio );
+
+  if( ret <= 0 && BIO_sock_should_retry(ret) )
+    BIO_set_retry_write( bio );
+
+  return ret;
+}
+
+//! Socket BIO which does not raise SIGPIPE when peer has gone.
+void init_bio_method()
+{
+  const BIO_METHOD* base = BIO_s_socket();
+
+  bio_method = BIO_meth_new( BIO_TYPE_SOCKET, "iqnet socket" );
+  BIO_meth_set_write( bio_method, bio_send );
+  BIO_meth_set_read( bio_method, BIO_meth_get_read(base) );
+  BIO_meth_set_ctrl( bio_method, BIO_meth_get_ctrl(base) );
+  BIO_meth_set_create( bio_method, BIO_meth_get_create(base) );
+  BIO_meth_set_destroy( bio_method, BIO_meth_get_destroy(base) );
+}
+
+bool set_ssl_socket( SSL* ssl, int fd )
+{
+  boost::call_once( bio_init, init_bio_method );
+  BIO* bio = BIO_new( bio_method );
+
+  if( !bio )
+    return false;
+
+  BIO_set_fd( bio, fd, BIO_NOCLOSE );
+  SSL_set_bio( ssl, bio, bio );
+  return true;
+}
+
+} // anonymous namespace
+#else
+#define set_ssl_socket SSL_set_fd
+#endif
+
 ssl::Connection::Connection( const Socket& s ):
   iqnet::Connection( s ),
   ssl_ctx( ssl::ctx )
@@ -18,7 +71,7 @@ ssl::Connection::Connection( const Socket& s ):
   if( !ssl )
     throw ssl::exception();
 
-  if( !SSL_set_fd( ssl, static_cast<int>(sock.get_handler()) ) )
+  if( !set_ssl_socket( ssl, static_cast<int>(sock.get_handler()) ) )
     throw ssl::exception();
 }
 
-- 
2.43.0


From 9b9d1950cefab4bd0980d01be82224a110c99832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:41 +0000
Subject: [PATCH 21/30] fix: end TLS connections whose shutdown cannot be
 completed

When the peer is already gone the shutdown may fail at once.
Nothing was registered with the reactor in this case, so nobody ever
deleted the connection, and a client reported a timeout.
---
 libiqxmlrpc/ssl_connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 9ce86c2..f8eb0f2 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -258,7 +258,7 @@ void ssl::Reaction_connection::switch_state( bool& terminate )
   catch( const ssl::connection_close& )
   {
 //    std::cout << "connection_close " << e.is_clean() << std::endl;
-    reg_shutdown();
+    terminate = reg_shutdown();
   }
 }
 
-- 
2.43.0


From fbc6977c06d05ae751cffe456ddd9d3e00dc8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:41 +0000
Subject: [PATCH 22/30] fix: report a connection closed by the TLS server as
 such

A call without any timeout ended with "Connection timeout" when the
server closed the TLS session before it had answered.
---
 libiqxmlrpc/https_client.cc | 6 ++++++
 libiqxmlrpc/https_client.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 1fb8393..e6e15ed 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -176,6 +176,12 @@ void Https_client_connection::recv_succeed( bool&, size_t, size_t sz )
   }
 }
 
+
+void Https_client_connection::finish()
+{
+  throw iqnet::network_error( "Connection closed by peer.", false );
+}
+
 } // namespace iqxmlrpc
 
 // vim:ts=2:sw=2:et
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..eb92b07 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -62,6 +62,7 @@ public:
   void connect_succeed();
   void send_succeed( bool& );
   void recv_succeed( bool&, size_t req_len, size_t real_len  );
+  void finish();
 
 protected:
   friend class Https_proxy_client_connection;
-- 
2.43.0


From 6011867609e000209c3b4113b9f99c1817a0ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:57 +0000
Subject: [PATCH 23/30] fix: make HTTPS calls through a proxy work

The connection inside the tunnel never got the client's options and
read uninitialised memory. It also closed the socket of the outer
connection, which was then closed once more. With keep-alive every
further call sent a second CONNECT inside the tunnel.

Use one connection object for both steps and keep the tunnel.
---
 libiqxmlrpc/https_client.cc | 43 ++++++++++++++++++------------
 libiqxmlrpc/https_client.h  | 52 +++++++++++++++++++------------------
 2 files changed, 54 insertions(+), 41 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e6e15ed..c50b1d4 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -42,23 +42,22 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   const iqnet::Socket& s,
   bool nb
 ):
-  Client_connection(),
-  Connection( s ),
-  reactor( new Reactor<Null_lock> ),
+  Https_client_connection( s, nb ),
   resp_packet(0),
-  non_blocking(nb)
+  tunnel_ready(false)
 {
-  sock.set_non_blocking( nb );
 }
 
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
-
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.post_connect();
+  if( !tunnel_ready )
+  {
+    setup_tunnel();
+    tunnel_ready = true;
+    Https_client_connection::post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  return Https_client_connection::do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
@@ -82,9 +81,15 @@ void Https_proxy_client_connection::setup_tunnel()
     throw http::Error_response( res_h->phrase(), res_h->code() );
 }
 
-void Https_proxy_client_connection::handle_output( bool& )
+void Https_proxy_client_connection::handle_output( bool& terminate )
 {
-  size_t sz = send( out_str.c_str(), out_str.length() );
+  if( tunnel_ready )
+  {
+    Https_client_connection::handle_output( terminate );
+    return;
+  }
+
+  size_t sz = sock.send( out_str.c_str(), out_str.length() );
   out_str.erase( 0, sz );
 
   if( out_str.empty() )
@@ -94,9 +99,15 @@ void Https_proxy_client_connection::handle_output( bool& )
   }
 }
 
-void Https_proxy_client_connection::handle_input( bool& )
+void Https_proxy_client_connection::handle_input( bool& terminate )
 {
-  size_t sz = recv( read_buf(), read_buf_sz() );
+  if( tunnel_ready )
+  {
+    Https_client_connection::handle_input( terminate );
+    return;
+  }
+
+  size_t sz = sock.recv( read_buf(), read_buf_sz() );
 
   if( !sz )
     throw iqnet::network_error( "Connection closed by peer.", false );
@@ -116,9 +127,9 @@ void Https_proxy_client_connection::handle_input( bool& )
 Https_client_connection::Https_client_connection( const iqnet::Socket& s, bool nb ):
   Client_connection(),
   iqnet::ssl::Reaction_connection( s ),
-  reactor( new Reactor<Null_lock> ),
   resp_packet(0),
-  established(false)
+  established(false),
+  reactor( new Reactor<Null_lock> )
 {
   iqnet::ssl::Reaction_connection::sock.set_non_blocking( nb );
 }
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index eb92b07..78681a0 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -15,37 +15,14 @@
 namespace iqxmlrpc
 {
 
-//! XML-RPC \b HTTPS PROXY client connection.
-//! DO NOT USE IT IN YOUR CODE.
-class LIBIQXMLRPC_API Https_proxy_client_connection:
-  public iqxmlrpc::Client_connection,
-  public iqnet::Connection
-{
-public:
-  Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
-
-  void handle_input( bool& );
-  void handle_output( bool& );
-
-protected:
-  http::Packet* do_process_session( const std::string& );
-
-  void setup_tunnel();
-
-  boost::scoped_ptr<iqnet::Reactor_base> reactor;
-  boost::scoped_ptr<http::Packet> resp_packet;
-  bool non_blocking;
-  std::string out_str;
-};
+class Https_proxy_client_connection;
 
 //! XML-RPC \b HTTPS client's connection.
 class LIBIQXMLRPC_API Https_client_connection:
   public iqxmlrpc::Client_connection,
   public iqnet::ssl::Reaction_connection
 {
-  std::auto_ptr<iqnet::Reactor_base> reactor;
   http::Packet* resp_packet;
-  std::string out_str;
   bool established;
 
 public:
@@ -65,13 +42,38 @@ public:
   void finish();
 
 protected:
-  friend class Https_proxy_client_connection;
   http::Packet* do_process_session( const std::string& );
 
+  std::auto_ptr<iqnet::Reactor_base> reactor;
+  std::string out_str;
+
 private:
   void reg_send_request();
 };
 
+//! XML-RPC \b HTTPS PROXY client connection.
+//! DO NOT USE IT IN YOUR CODE.
+class LIBIQXMLRPC_API Https_proxy_client_connection:
+  public Https_client_connection
+{
+public:
+  Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+
+  //! TLS session is being started when tunnel is ready.
+  void post_connect() {}
+
+  void handle_input( bool& );
+  void handle_output( bool& );
+
+protected:
+  http::Packet* do_process_session( const std::string& );
+
+  void setup_tunnel();
+
+  boost::scoped_ptr<http::Packet> resp_packet;
+  bool tunnel_ready;
+};
+
 } // namespace iqxmlrpc
 
 #endif
-- 
2.43.0


From 5a1c62c6e127c34644803776094f2e9e00749e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:03 +0000
Subject: [PATCH 24/30] fix: close the listening socket when the server cannot
 be started

The port may be in use. The socket stayed open then.
---
 libiqxmlrpc/acceptor.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 98066b8..6f9c8a6 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -17,8 +17,16 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
+  try {
+    sock.bind( bind_addr );
+    listen();
+  }
+  catch( ... )
+  {
+    sock.close();
+    throw;
+  }
+
   reactor->register_handler( this, Reactor_base::INPUT );
 }
 
-- 
2.43.0


From 9d03deaf0c9292eb9dea694b036368dcbcbf15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:03 +0000
Subject: [PATCH 25/30] fix: close internal sockets when the server cannot be
 created

Any step of making the interrupter may fail for lack of descriptors.
The sockets made before that step stayed open.
---
 libiqxmlrpc/reactor_interrupter.cc | 34 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 68af655..fc9fd20 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -47,6 +47,8 @@ public:
   void make_interrupt();
 
 private:
+  void connect(Reactor_base* reactor);
+
   std::auto_ptr<Interrupter_connection> server_;
   Socket client_;
   boost::mutex lock_;
@@ -54,18 +56,36 @@ private:
 
 
 Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
+{
+  try {
+    connect(reactor);
+  }
+  catch( ... )
+  {
+    client_.close();
+    throw;
+  }
+}
+
+void Reactor_interrupter::Impl::connect(Reactor_base* reactor)
 {
   Socket srv;
-  srv.bind(Inet_addr("127.0.0.1", 0)); // bind to port 0, which means any port beyond 1024
-  srv.listen(1);
 
-  Inet_addr srv_addr(srv.get_addr());
-  client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
-  Socket srv_conn(srv.accept());
+  try {
+    srv.bind(Inet_addr("127.0.0.1", 0)); // bind to port 0, which means any port beyond 1024
+    srv.listen(1);
 
-  srv.close();
+    Inet_addr srv_addr(srv.get_addr());
+    client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
+    server_.reset(new Interrupter_connection(reactor, srv.accept()));
+  }
+  catch( ... )
+  {
+    srv.close();
+    throw;
+  }
 
-  server_.reset(new Interrupter_connection(reactor, srv_conn));
+  srv.close();
 }
 
 void Reactor_interrupter::Impl::make_interrupt()
-- 
2.43.0


From 3ae469a6e85b201e1ac48652064b7f6f263bd6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:04 +0000
Subject: [PATCH 26/30] fix: free a struct member value when its document is
 broken

The value of a struct member was kept in a plain pointer until the end of
the member.  A document that broke off in between leaked it.
---
 libiqxmlrpc/value_parser.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 9594bb3..8e1cec8 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -20,7 +20,7 @@ public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
     state_(parser, NONE),
-    value_(0)
+    value_()
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -49,8 +49,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -69,7 +70,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -77,7 +78,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
-- 
2.43.0


From d28b8ad923219939e783190055bfffae7f2c5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:38 +0000
Subject: [PATCH 27/30] fix: do not leak the default value of an empty i8
 element

When a default is set, parsing an empty i8 element copied the default
object and forgot the original.
---
 libiqxmlrpc/value_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 8e1cec8..551f579 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -206,7 +206,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
-- 
2.43.0


From 1dda7453d3f6c1974f7566d62462b74c646c1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:35 +0000
Subject: [PATCH 28/30] fix: honour Keep-Alive in any letter case

The value of the Connection header is not case-sensitive.  Peers that write
"Keep-Alive" had their connection closed after every answer.
---
 libiqxmlrpc/http.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index a3eda1e..b5637b6 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -220,7 +220,7 @@ unsigned Header::content_length() const
 
 bool Header::conn_keep_alive() const
 {
-  return get_string(names::connection) == "keep-alive";
+  return boost::iequals(get_string(names::connection), "keep-alive");
 }
 
 bool Header::expect_continue() const
-- 
2.43.0


From b7e46e54d9354846b0b786b1889c74d5ff500e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:35 +0000
Subject: [PATCH 29/30] fix: resolve host names that have many addresses

The resolver was given room for 1024 bytes and never asked again when that
was not enough.  Such hosts could not be reached.
---
 libiqxmlrpc/inet_addr.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 5558769..53bd7c9 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -1,6 +1,8 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
+#include <errno.h>
+#include <vector>
 #include <boost/optional.hpp>
 #include <boost/thread/mutex.hpp>
 #include "inet_addr.h"
@@ -29,7 +31,7 @@ std::string get_host_name()
 #if !defined(IQXMLRPC_GETHOSTBYNAME)
 #define IQXMLRPC_GETHOSTBYNAME_PREP \
   struct hostent hent_local; \
-  char buf[1024]; \
+  std::vector<char> buf(1024); \
   int local_h_errno = 0;
 #endif
 
@@ -43,14 +45,16 @@ std::string get_host_name()
 #if defined(__sun) || defined(sun)
 #define IQXMLRPC_GETHOSTBYNAME(_h) \
   IQXMLRPC_GETHOSTBYNAME_PREP \
-  hent = ::gethostbyname_r( _h), &hent_local, buf, sizeof(buf), &local_h_errno ); \
+  hent = ::gethostbyname_r( _h), &hent_local, &buf[0], buf.size(), &local_h_errno ); \
   IQXMLRPC_GETHOSTBYNAME_POST
 #endif
 
 #if !defined(IQXMLRPC_GETHOSTBYNAME)
 #define IQXMLRPC_GETHOSTBYNAME(_h) \
   IQXMLRPC_GETHOSTBYNAME_PREP \
-  ::gethostbyname_r( _h, &hent_local, buf, sizeof(buf), &hent, &local_h_errno ); \
+  while( ::gethostbyname_r( _h, &hent_local, &buf[0], buf.size(), &hent, &local_h_errno ) == ERANGE ) { \
+    buf.resize(buf.size() * 2); \
+  } \
   IQXMLRPC_GETHOSTBYNAME_POST
 #endif
 
-- 
2.43.0


From 2f9f2543833e888523991ae52cb5eed9f239b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:00 +0000
Subject: [PATCH 30/30] fix: end the started threads when a thread pool cannot
 be created

The constructor of the pool executor factory may fail to start one of its
threads. The threads started before went on running and used the pool,
which no longer existed. Now they are ended before the error is reported.
---
 libiqxmlrpc/executor.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index d8164f1..1fd068a 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -124,7 +124,17 @@ void Pool_executor_factory::Pool_thread::operator ()()
 Pool_executor_factory::Pool_executor_factory(unsigned numthreads):
   in_destructor(false)
 {
-  add_threads(numthreads);
+  try {
+    add_threads(numthreads);
+  }
+  catch( ... )
+  {
+    // threads that have been started must not outlive the pool
+    destruction_started();
+    threads.join_all();
+    util::delete_ptrs(pool.begin(), pool.end());
+    throw;
+  }
 }
 
 
-- 
2.43.0

