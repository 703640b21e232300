From ca4dbd5bc5811da88dc5e0f48f67f039cb8b5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 01/23] fix: send MemoryParityError as exception code 0x08

The Modbus specification and parse_exception_type() use 0x08; the enumerator
was 0x07, so a server session's MemoryParityError reached the client as an
unknown exception code and the client could not report it.
---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 726da10930731db28ee07393406e4bbe48ed180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 02/23] fix: do not let an expired timer time out the following
 request

When a response is processed after the timer expired but before its handler
ran, cancel() has no effect and the handler timed out whatever request had
become the current one.
---
 lib/src/client/channel/ClientChannelTcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..4dd4dfe 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // The timer may expire right before it is cancelled, it must not time out the following request.
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From bbebf9054c697f23dcb22015ab2a94388547da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 03/23] fix: reject register responses whose byte count does
 not match their data

As the other responses with a byte count already do.
---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..aa156fe 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the number of bytes fits
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response length does not fit with the value in the header."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From 54397f66b47bf68ffdaa13f183dddd8f6066fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 04/23] fix: replace the session of a unit that is added again

IServerChannel::add_session() documents that the old session is replaced by
the new one, but unordered_map::insert() keeps the old one.
---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..19b336e 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,7 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From 6710d5bd1851476673a57d6bf925c776eed7e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 05/23] fix: join the background threads in
 IModbusManager::shutdown()

As documented. Only the destructor did it, so callbacks could still run after
shutdown() had returned.
---
 lib/src/ModbusManagerImpl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index 6c101a9..9aabf80 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -87,7 +87,7 @@ std::shared_ptr<IServerChannel> ModbusManagerImpl::create_server_tcp_channel(con
 
 void ModbusManagerImpl::shutdown()
 {
-    std::lock_guard<std::mutex> lock(m_mutex);
+    std::unique_lock<std::mutex> lock(m_mutex);
 
     for(auto channel : m_client_channels)
     {
@@ -100,6 +100,10 @@ void ModbusManagerImpl::shutdown()
         channel->shutdown();
     }
     m_server_channels.clear();
+
+    // The callbacks that are still queued must be able to use the manager while the threads are joined
+    lock.unlock();
+    m_thread_pool.shutdown();
 }
 
 } // namespace modbus
-- 
2.43.0


From 474df987df1ed89e571dae8f8786a38b0c5cf6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 06/23] fix: keep a single chain of executions per scheduled
 request

When stop() and start() were called while a request was outstanding, the
response of the old request and the new execution each planned the next one
and the requests were sent at twice the frequency from there on. When the
timer had already expired as stop() cancelled it, the request was sent once
more (and again twice as often after a start()).
---
 lib/src/client/session/ScheduledRequest.h   |  3 ++-
 lib/src/client/session/ScheduledRequest.hpp | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..78fc7d5 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -49,7 +49,7 @@ public:
     duration_t get_frequency() const override;
 
 private:
-    void execute();
+    void execute(unsigned int run);
 
     std::shared_ptr<IClientSession> m_session;
     ResponseHandler<TResponse> m_handler;
@@ -59,6 +59,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    unsigned int m_current_run;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..cfc1a17 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_current_run{0},
       m_timer{nullptr}
 {
 
@@ -50,7 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
-            execute();
+            execute(++m_current_run);
         }
     });
 }
@@ -88,19 +89,22 @@ bool ScheduledRequest<TRequest, TResponse>::is_running() const
 };
 
 template<typename TRequest, typename TResponse>
-void ScheduledRequest<TRequest, TResponse>::execute()
+void ScheduledRequest<TRequest, TResponse>::execute(unsigned int run)
 {
+    // Stopped, or restarted, since this execution was planned
+    if(!m_running || run != m_current_run) return;
+
     // Send the request
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
 
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        if(is_running() && run == m_current_run)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                execute(run);
             });
         }
     });
-- 
2.43.0


From e8e79e33ed24c5da1298c513295d1b9375ff9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 07/23] fix: synchronise what the channels share with the
 caller's threads

create_session(), send_request(), start() and add_session() run on the
caller's thread and read m_is_shutdown (and create_session() appends to
m_sessions) while shutdown() writes them on a background thread.
---
 lib/src/client/channel/ClientChannelTcp.cpp | 3 +++
 lib/src/client/channel/ClientChannelTcp.h   | 5 ++++-
 lib/src/server/channel/ServerChannelTcp.h   | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 4dd4dfe..a1d6b9f 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -44,6 +44,7 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
 {
     std::shared_ptr<IClientSession> session;
 
+    std::lock_guard<std::mutex> lock(m_sessions_mutex);
     if(!m_is_shutdown)
     {
         session = std::make_shared<ClientSessionImpl>(m_executor,
@@ -95,6 +96,7 @@ void ClientChannelTcp::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
         m_logger->info("Shutting down.");
+        std::unique_lock<std::mutex> lock(m_sessions_mutex);
         m_is_shutdown = true;
 
         for(auto& session : m_sessions)
@@ -102,6 +104,7 @@ void ClientChannelTcp::shutdown()
             session->shutdown();
         }
         m_sessions.clear();
+        lock.unlock();
 
         m_pending_requests.clear();
         m_current_request.reset(nullptr);
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..579d65b 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,7 +16,9 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <atomic>
 #include <deque>
+#include <mutex>
 #include <memory>
 #include "ser4cpp/container/Buffer.h"
 #include "exe4cpp/IExecutor.h"
@@ -68,7 +70,8 @@ private:
     std::shared_ptr<Logger> m_logger;
     std::shared_ptr<ITcpConnection> m_tcp_connection;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
+    std::mutex m_sessions_mutex;
     std::vector<std::shared_ptr<IClientSession>> m_sessions;
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
diff --git a/lib/src/server/channel/ServerChannelTcp.h b/lib/src/server/channel/ServerChannelTcp.h
index 18896d7..a3d2dd0 100644
--- a/lib/src/server/channel/ServerChannelTcp.h
+++ b/lib/src/server/channel/ServerChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SERVERCHANNELTCP_H
 #define MODBUS_SERVERCHANNELTCP_H
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -55,7 +56,7 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     std::shared_ptr<IServer> m_server;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
     bool m_is_started;
     std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;
 };
-- 
2.43.0


From 534201c1633ce10061d36c190dd5f92ca162f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 08/23] fix: make the state that IScheduledRequest reports
 atomic

is_running() and get_frequency() are called from the user's threads while a
background thread starts, stops or reconfigures the scheduled request.
---
 lib/src/client/session/ScheduledRequest.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 78fc7d5..b34e922 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <atomic>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -56,9 +57,9 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     TRequest m_request;
     duration_t m_timeout;
-    duration_t m_frequency;
+    std::atomic<duration_t> m_frequency;
 
-    bool m_running;
+    std::atomic<bool> m_running;
     unsigned int m_current_run;
     exe4cpp::Timer m_timer;
 };
-- 
2.43.0


From c768b66727c04aa95cd1d296ff2f93c83e062cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 09/23] fix: report every failure to establish a connection,
 and recover from it

When the adapter address could not be parsed or bound, or no socket could be
opened, nothing was reported and the request waited for its timeout. The
socket was left open there and when the host name could not be resolved, so
that every later attempt failed with "already open".
---
 .../client/channel/AsioClientTcpConnection.cpp | 18 ++++++++++++++----
 .../client/channel/AsioClientTcpConnection.h   |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..aa683e2 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -57,16 +57,16 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         // Connect to the proper adapter
         asio::error_code ec{};
         const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); fail(ec); return; }
 
         asio::ip::tcp::endpoint endpoint{};
         endpoint.address(address);
         endpoint.port(0);
         m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("socket open error: {}", ec.message()); fail(ec); return; }
 
         m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); fail(ec); return; }
 
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
@@ -120,7 +120,7 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        close();
         send_error(ec.message());
         return;
     }
@@ -228,6 +228,16 @@ void AsioClientTcpConnection::send_buffer()
     }
 }
 
+void AsioClientTcpConnection::fail(const asio::error_code& ec)
+{
+    close();
+
+    // The caller of send() must not be called back before it returns
+    m_executor->post([=, self = shared_from_this()] () {
+        send_error(ec.message());
+    });
+}
+
 void AsioClientTcpConnection::send_error(const std::string& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..e89faff 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -57,6 +57,7 @@ private:
 
     void begin_read();
     void send_buffer();
+    void fail(const asio::error_code& ec);
     void send_error(const std::string& message);
 
     std::shared_ptr<Logger> m_logger;
-- 
2.43.0


From 47343dc26b73c73334df83bfc8a392b8e5157cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 10/23] fix: a lost client connection must not break the
 following one

The loss was handled in a posted close(), so that a request sent in between
was written to the dead socket, and the handlers aborted by closing a
connection could close the one established since, or read from it twice.
A connection that the peer closed in the middle of a frame left the partial
frame in the parser, where it corrupted the first response of the following
connection: report that close as the other losses are.
---
 .../channel/AsioClientTcpConnection.cpp       | 68 +++++++++++--------
 .../client/channel/AsioClientTcpConnection.h  | 10 +--
 2 files changed, 45 insertions(+), 33 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index aa683e2..bf05b8c 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,7 +34,8 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_connection_id{0}
 {
 
 }
@@ -74,7 +75,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         m_resolver.async_resolve(query,
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
                                                             std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                            _1, _2)));
+                                                            m_connection_id, _1, _2)));
     }
 
     if(m_current_connection_status == ConnectionStatus::Connected)
@@ -90,16 +91,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        close_connection();
     });
 }
 
@@ -113,14 +105,14 @@ void AsioClientTcpConnection::shutdown()
     });
 }
 
-void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
+void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        close();
+        close_connection();
         send_error(ec.message());
         return;
     }
@@ -129,17 +121,17 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
                         endpoints,
                         m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+                                                m_connection_id, _1)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        close_connection();
         send_error(ec.message());
         return;
     }
@@ -151,21 +143,22 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
+            close_connection();
+            send_error(ec.message());
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
+            close_connection();
             send_error(ec.message());
         }
         return;
@@ -182,14 +175,14 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(unsigned int connection_id, const std::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        close_connection();
         send_error(ec.message());
         return;
     }
@@ -205,6 +198,23 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+void AsioClientTcpConnection::close_connection()
+{
+    m_current_connection_status = ConnectionStatus::NotConnected;
+
+    // The handlers of this connection that are still to be called do not concern the next one
+    ++m_connection_id;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -212,7 +222,7 @@ void AsioClientTcpConnection::begin_read()
     m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+                                                         m_connection_id, _1, _2)));
 }
 
 void AsioClientTcpConnection::send_buffer()
@@ -224,13 +234,13 @@ void AsioClientTcpConnection::send_buffer()
         m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
                                 m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
                                                         std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+                                                        m_connection_id, _1, _2)));
     }
 }
 
 void AsioClientTcpConnection::fail(const asio::error_code& ec)
 {
-    close();
+    close_connection();
 
     // The caller of send() must not be called back before it returns
     m_executor->post([=, self = shared_from_this()] () {
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index e89faff..655e453 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -50,11 +50,12 @@ private:
         Connected
     };
 
-    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
+    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void close_connection();
     void begin_read();
     void send_buffer();
     void fail(const asio::error_code& ec);
@@ -69,6 +70,7 @@ private:
 
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
+    unsigned int m_connection_id;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
 
-- 
2.43.0


From 62768c38ae29bfa152e404e495287c48c7762418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 11/23] fix: write every frame of a client completely before
 the next one

async_send() may write a part of the frame only, and the buffer it was still
writing from was released when the next request was sent (after a timeout).
---
 .../channel/AsioClientTcpConnection.cpp       | 21 ++++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index bf05b8c..1a2c945 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -35,7 +35,8 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
           m_current_connection_status{ConnectionStatus::NotConnected},
-          m_connection_id{0}
+          m_connection_id{0},
+          m_is_writing{false}
 {
 
 }
@@ -189,7 +190,8 @@ void AsioClientTcpConnection::write_handler(unsigned int connection_id, const st
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_writing = false;
+    send_buffer();
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -204,6 +206,7 @@ void AsioClientTcpConnection::close_connection()
 
     // The handlers of this connection that are still to be called do not concern the next one
     ++m_connection_id;
+    m_is_writing = false;
 
     if(m_tcp_socket.is_open())
     {
@@ -229,12 +232,16 @@ void AsioClientTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer)
+    if(m_write_buffer && !m_is_writing)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        m_connection_id, _1, _2)));
+        // A frame must be completely written before the following one. Its buffer lives as long as the handler.
+        m_is_writing = true;
+        std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap([this, self = shared_from_this(), buffer, connection_id = m_connection_id](const asio::error_code& ec, std::size_t bytes_transferred) {
+                              write_handler(connection_id, ec, bytes_transferred);
+                          }));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 655e453..44a8350 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -71,6 +71,7 @@ private:
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
     unsigned int m_connection_id;
+    bool m_is_writing;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
 
-- 
2.43.0


From fa0188886fd70e7b2965ec564ec2d5500297867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 12/23] fix: write every response of a server completely before
 the next one

async_send() may write a part of the response only, and with several requests
received at once the buffer of a response was released by the next one while
it was still being written. The following requests of a connection are read
once its responses are written, so that they do not pile up when the peer does
not read them.
---
 .../channel/AsioServerTcpConnection.cpp       | 40 ++++++++++++++-----
 .../server/channel/AsioServerTcpConnection.h  |  4 +-
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..f4587aa 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -32,7 +32,8 @@ AsioServerTcpConnection::AsioServerTcpConnection(std::shared_ptr<Logger> logger,
           m_server{server},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_is_connected{false}
+          m_is_connected{false},
+          m_is_reading{false}
 {
 
 }
@@ -46,8 +47,11 @@ void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
-    send_buffer();
+    m_write_buffers.push_back(std::make_unique<ser4cpp::Buffer>(data));
+    if(m_write_buffers.size() == 1)
+    {
+        send_buffer();
+    }
 }
 
 void AsioServerTcpConnection::close()
@@ -101,6 +105,7 @@ asio::ip::tcp::socket& AsioServerTcpConnection::get_socket()
 
 void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
 {
+    m_is_reading = false;
     if(m_is_shutdown) return;
 
     if(ec)
@@ -118,7 +123,11 @@ void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size
         m_connection_listener->on_receive(ser4cpp::rseq_t{m_read_buffer.data(), (unsigned int) bytes_transferred});
     }
 
-    begin_read();
+    // Do not let the responses to a peer that does not read them pile up
+    if(m_write_buffers.empty())
+    {
+        begin_read();
+    }
 }
 
 void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
@@ -135,7 +144,14 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_write_buffers.pop_front();
+    send_buffer();
+
+    // The peer reads its responses, accept its next requests
+    if(m_write_buffers.empty())
+    {
+        begin_read();
+    }
 
     if(m_connection_listener)
     {
@@ -147,8 +163,9 @@ void AsioServerTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
 
-    if(m_is_connected)
+    if(m_is_connected && !m_is_reading)
     {
+        m_is_reading = true;
         m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                     m_executor->wrap(std::bind(&AsioServerTcpConnection::read_handler,
                                                                std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
@@ -160,12 +177,13 @@ void AsioServerTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer && m_is_connected)
+    if(!m_write_buffers.empty() && m_is_connected)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(m_write_buffers.front()->as_rslice(), m_write_buffers.front()->length()),
+                          m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                     std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                     _1, _2)));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..7a341e1 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,7 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -61,8 +62,9 @@ private:
 
     bool m_is_shutdown;
     bool m_is_connected;
+    bool m_is_reading;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::unique_ptr<ser4cpp::Buffer>> m_write_buffers;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 8a5d7bc106cae60e195368ca512dc8f26ab3707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 13/23] fix: connect through the adapter that was asked for

asio::async_connect() on a range of endpoints closes the socket and opens a
new one for every endpoint, so that the bind to the adapter was lost and the
connection was established from whatever address the system picked.
---
 .../channel/AsioClientTcpConnection.cpp       | 61 ++++++++++---------
 .../client/channel/AsioClientTcpConnection.h  |  4 +-
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 1a2c945..d29dd9e 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -56,20 +56,6 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
     {
         m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
 
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); fail(ec); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); fail(ec); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); fail(ec); return; }
-
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
         asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
@@ -118,20 +104,21 @@ void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                m_connection_id, _1)));
+    begin_connect(endpoints);
 }
 
-void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
 {
     if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
+        if(++endpoints != asio::ip::tcp::resolver::iterator{})
+        {
+            begin_connect(endpoints);
+            return;
+        }
         close_connection();
         send_error(ec.message());
         return;
@@ -218,6 +205,30 @@ void AsioClientTcpConnection::close_connection()
     }
 }
 
+void AsioClientTcpConnection::begin_connect(asio::ip::tcp::resolver::iterator endpoints)
+{
+    // asio::async_connect() on all the endpoints would not do here: it replaces the socket by one that is not bound.
+    asio::error_code ec{};
+    m_tcp_socket.close(ec);
+    m_tcp_socket.open(endpoints->endpoint().protocol(), ec);
+    if(ec) { m_logger->error("socket open error: {}", ec.message()); connect_handler(m_connection_id, ec, endpoints); return; }
+
+    // Connect from the proper adapter
+    if(!m_adapter.empty())
+    {
+        const auto address = asio::ip::address::from_string(m_adapter, ec);
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); connect_handler(m_connection_id, ec, endpoints); return; }
+
+        m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); connect_handler(m_connection_id, ec, endpoints); return; }
+    }
+
+    m_tcp_socket.async_connect(endpoints->endpoint(),
+                               m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                       std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                       m_connection_id, _1, endpoints)));
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -245,16 +256,6 @@ void AsioClientTcpConnection::send_buffer()
     }
 }
 
-void AsioClientTcpConnection::fail(const asio::error_code& ec)
-{
-    close_connection();
-
-    // The caller of send() must not be called back before it returns
-    m_executor->post([=, self = shared_from_this()] () {
-        send_error(ec.message());
-    });
-}
-
 void AsioClientTcpConnection::send_error(const std::string& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 44a8350..d24bfb8 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -51,14 +51,14 @@ private:
     };
 
     void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void connect_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
     void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
     void write_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
 
     void close_connection();
+    void begin_connect(asio::ip::tcp::resolver::iterator endpoints);
     void begin_read();
     void send_buffer();
-    void fail(const asio::error_code& ec);
     void send_error(const std::string& message);
 
     std::shared_ptr<Logger> m_logger;
-- 
2.43.0


From 8d049d429f6e70e65024ee7ec7e76a557dcb223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 14/23] fix: continue accepting connections after an error

An error while accepting a connection (e.g. too many opened files) ended the
accept loop for good, and was subtracted from the number of connections though
the connection had not been counted: with no other connection the unsigned
counter wrapped around and every later connection was closed as excess.
---
 lib/src/server/channel/AsioServer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..82b2f8d 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,14 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        // This connection was never established, so it isn't counted in the opened connections
+        m_logger->error("Accept error: {}", ec.message());
+        m_connections.remove(connection);
+
+        // The error may be temporary (e.g. too many opened files), so wait a little and continue accepting connections
+        m_executor->start(std::chrono::milliseconds{100}, [=, self=shared_from_this()] {
+            start_accept();
+        });
         return;
     }
 
-- 
2.43.0


From e1613734e20612170e68dc4df5109dc282f9fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 15/23] fix: close the connection of a client channel that is
 shut down

It was only cancelled, so the connection stayed open for as long as anyone
(the manager, a session) held the channel.
---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index d29dd9e..b924a42 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -87,8 +87,7 @@ void AsioClientTcpConnection::shutdown()
     m_executor->post([=, self = shared_from_this()] () {
         m_is_shutdown = true;
 
-        std::error_code ec;
-        m_tcp_socket.cancel(ec);
+        close_connection();
     });
 }
 
-- 
2.43.0


From a4aedd630c3940b0790266021746de7405a6edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:00 +0000
Subject: [PATCH 16/23] fix: stop a request that is scheduled while its session
 is shut down

It was never stopped: it polled forever when only the session was shut down,
and it and the session kept each other alive.
---
 lib/src/client/session/ClientSessionImpl.cpp | 12 +++++++++++-
 lib/src/client/session/ClientSessionImpl.h   |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/session/ClientSessionImpl.cpp b/lib/src/client/session/ClientSessionImpl.cpp
index 4a264cf..526027c 100644
--- a/lib/src/client/session/ClientSessionImpl.cpp
+++ b/lib/src/client/session/ClientSessionImpl.cpp
@@ -47,7 +47,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
   m_logger{logger},
   m_channel{channel},
   m_unit_identifier{unit_identifier},
-  m_default_timeout{default_timeout}
+  m_default_timeout{default_timeout},
+  m_is_shutdown{false}
 {
 
 }
@@ -55,6 +56,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
 void ClientSessionImpl::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
+        m_is_shutdown = true;
+
         for(auto& req : m_scheduled_requests)
         {
             req->stop();
@@ -272,6 +275,13 @@ std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(cons
     scheduled_request->start();
 
     m_executor->post([=, self = shared_from_this()]() {
+        // The session may have been shut down in the meantime
+        if(m_is_shutdown)
+        {
+            scheduled_request->stop();
+            return;
+        }
+
         m_scheduled_requests.push_back(scheduled_request);
     });
 
diff --git a/lib/src/client/session/ClientSessionImpl.h b/lib/src/client/session/ClientSessionImpl.h
index a98c138..d2bd612 100644
--- a/lib/src/client/session/ClientSessionImpl.h
+++ b/lib/src/client/session/ClientSessionImpl.h
@@ -147,6 +147,7 @@ private:
     UnitIdentifier m_unit_identifier;
     duration_t m_default_timeout;
 
+    bool m_is_shutdown;
     std::vector<std::shared_ptr<IScheduledRequest>> m_scheduled_requests;
 };
 
-- 
2.43.0


From a55e6f30016ce8762b7760c98a40f3e200495cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 17/23] fix: do not close the socket that the acceptor of a
 server still waits for

The connection that the server waits for was already in the list of its
connections, so shutdown() closed its socket on the strand while another
background thread was assigning the accepted descriptor to it.
---
 lib/src/server/channel/AsioServer.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 82b2f8d..767d54b 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -62,13 +62,10 @@ size_t AsioServer::get_num_connections() const
 
 void AsioServer::start_accept()
 {
-    if(m_is_shutdown) return;
-
     m_executor->post([=, self=shared_from_this()] {
         if(m_is_shutdown) return;
 
         auto connection = std::make_shared<AsioServerTcpConnection>(m_logger, m_executor, std::dynamic_pointer_cast<AsioServer>(shared_from_this()));
-        m_connections.push_back(connection);
         m_tcp_acceptor.async_accept(connection->get_socket(),
                                     m_executor->wrap(
                                         std::bind(&AsioServer::handle_accept,
@@ -86,7 +83,6 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
     {
         // This connection was never established, so it isn't counted in the opened connections
         m_logger->error("Accept error: {}", ec.message());
-        m_connections.remove(connection);
 
         // The error may be temporary (e.g. too many opened files), so wait a little and continue accepting connections
         m_executor->start(std::chrono::milliseconds{100}, [=, self=shared_from_this()] {
@@ -96,6 +92,7 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
     }
 
     // Kill an old connection if there are two many open connections
+    m_connections.push_back(connection);
     ++m_num_connections;
     if(m_num_connections > m_max_connections)
     {
-- 
2.43.0


From e90bebff717b433d02ad62aabd527e6e16be83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 18/23] fix: do not continue the frame of a closed connection
 on the next one

The composed write continued with the remaining part of a frame on the socket
after it was closed and opened again for the next connection.
---
 .../channel/AsioClientTcpConnection.cpp       | 25 +++++++++++++------
 .../client/channel/AsioClientTcpConnection.h  |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index b924a42..c8c4d71 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -244,17 +244,28 @@ void AsioClientTcpConnection::send_buffer()
 
     if(m_write_buffer && !m_is_writing)
     {
-        // A frame must be completely written before the following one. Its buffer lives as long as the handler.
+        // A frame must be completely written before the following one.
         m_is_writing = true;
-        std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};
-        asio::async_write(m_tcp_socket,
-                          asio::buffer(buffer->as_rslice(), buffer->length()),
-                          m_executor->wrap([this, self = shared_from_this(), buffer, connection_id = m_connection_id](const asio::error_code& ec, std::size_t bytes_transferred) {
-                              write_handler(connection_id, ec, bytes_transferred);
-                          }));
+        begin_write(std::move(m_write_buffer), 0);
     }
 }
 
+void AsioClientTcpConnection::begin_write(std::shared_ptr<ser4cpp::Buffer> buffer, std::size_t offset)
+{
+    // asio::async_write() would not do here: if this connection is closed between two parts of the frame, it
+    // writes the following part to the next connection, which uses the same socket. The buffer lives as long as the handler.
+    m_tcp_socket.async_write_some(asio::buffer(buffer->as_rslice(), buffer->length()) + offset,
+                                  m_executor->wrap([=, self = shared_from_this(), connection_id = m_connection_id](const asio::error_code& ec, std::size_t bytes_transferred) {
+                                      const auto written = offset + bytes_transferred;
+                                      if(!ec && written < buffer->length() && !m_is_shutdown && connection_id == m_connection_id)
+                                      {
+                                          begin_write(buffer, written);
+                                          return;
+                                      }
+                                      write_handler(connection_id, ec, written);
+                                  }));
+}
+
 void AsioClientTcpConnection::send_error(const std::string& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index d24bfb8..8f6171f 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -59,6 +59,7 @@ private:
     void begin_connect(asio::ip::tcp::resolver::iterator endpoints);
     void begin_read();
     void send_buffer();
+    void begin_write(std::shared_ptr<ser4cpp::Buffer> buffer, std::size_t offset);
     void send_error(const std::string& message);
 
     std::shared_ptr<Logger> m_logger;
-- 
2.43.0


From cd56bbd49eb6c5aa7f8cfba9abc3728325e4deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 19/23] fix: release the port of a server that is shut down
 without having been started

---
 lib/src/server/channel/ServerChannelTcp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index 19b336e..cdd9cb7 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -76,6 +76,11 @@ void ServerChannelTcp::shutdown()
             m_server->shutdown();
             m_is_started = false;
         }
+        else
+        {
+            // Nothing runs in the server, but it occupies its port
+            m_server.reset();
+        }
         
         for(auto session : m_sessions)
         {
-- 
2.43.0


From f18c9b2243b310e6fa0046186ff6a249a7af0005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 20/23] fix: shut down a channel that is created while its
 manager is being shut down

---
 lib/src/ModbusManagerImpl.cpp | 26 +++++++++++++++++++++++---
 lib/src/ModbusManagerImpl.h   |  5 +++++
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index 9aabf80..d48b2ff 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -29,7 +29,9 @@ namespace modbus
 ModbusManagerImpl::ModbusManagerImpl(std::shared_ptr<Logger> logger, unsigned int number_of_threads)
     : m_io_service{std::make_shared<asio::io_service>()},
       m_logger{std::move(logger)},
-      m_thread_pool{m_io_service, number_of_threads}
+      m_thread_pool{m_io_service, number_of_threads},
+      m_is_shutdown{false},
+      m_is_stopped{false}
 {
 
 }
@@ -56,7 +58,7 @@ std::shared_ptr<IClientChannel> ModbusManagerImpl::create_client_tcp_channel(con
 
     {
         std::lock_guard<std::mutex> lock(m_mutex);
-        m_client_channels.emplace_back(channel);
+        register_channel(m_client_channels, channel);
     }
 
     return channel;
@@ -79,15 +81,30 @@ std::shared_ptr<IServerChannel> ModbusManagerImpl::create_server_tcp_channel(con
 
     {
         std::lock_guard<std::mutex> lock(m_mutex);
-        m_server_channels.emplace_back(channel);
+        register_channel(m_server_channels, channel);
     }
 
     return channel;
 }
 
+template <typename Channel, typename Impl>
+void ModbusManagerImpl::register_channel(std::vector<std::shared_ptr<Channel>>& channels, const std::shared_ptr<Impl>& channel)
+{
+    if(!m_is_shutdown)
+    {
+        channels.emplace_back(channel);
+    }
+    else if(!m_is_stopped)
+    {
+        // The threads would otherwise never run out of work, and the shutdown that waits for them never return
+        channel->shutdown();
+    }
+}
+
 void ModbusManagerImpl::shutdown()
 {
     std::unique_lock<std::mutex> lock(m_mutex);
+    m_is_shutdown = true;
 
     for(auto channel : m_client_channels)
     {
@@ -104,6 +121,9 @@ void ModbusManagerImpl::shutdown()
     // The callbacks that are still queued must be able to use the manager while the threads are joined
     lock.unlock();
     m_thread_pool.shutdown();
+
+    lock.lock();
+    m_is_stopped = true;
 }
 
 } // namespace modbus
diff --git a/lib/src/ModbusManagerImpl.h b/lib/src/ModbusManagerImpl.h
index 3b62422..fe1f4b7 100644
--- a/lib/src/ModbusManagerImpl.h
+++ b/lib/src/ModbusManagerImpl.h
@@ -40,6 +40,9 @@ public:
     void shutdown() override;
 
 private:
+    template <typename Channel, typename Impl>
+    void register_channel(std::vector<std::shared_ptr<Channel>>& channels, const std::shared_ptr<Impl>& channel);
+
     std::shared_ptr<asio::io_service> m_io_service;
     std::shared_ptr<Logger> m_logger;
     exe4cpp::ThreadPool m_thread_pool;
@@ -47,6 +50,8 @@ private:
     std::mutex m_mutex;
     std::vector<std::shared_ptr<IClientChannel>> m_client_channels;
     std::vector<std::shared_ptr<IServerChannel>> m_server_channels;
+    bool m_is_shutdown;
+    bool m_is_stopped;
 };
 
 } // namespace modbus
-- 
2.43.0


From b3c657711408e2f83343ae865111383b33aa9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 21/23] fix: let a shutdown of a manager that comes during
 another one wait for it

---
 lib/src/ModbusManagerImpl.cpp | 3 +++
 lib/src/ModbusManagerImpl.h   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index d48b2ff..ec6bf24 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -103,6 +103,9 @@ void ModbusManagerImpl::register_channel(std::vector<std::shared_ptr<Channel>>&
 
 void ModbusManagerImpl::shutdown()
 {
+    // Whoever calls this must find everything shut down when it returns
+    std::lock_guard<std::mutex> shutdown_lock(m_shutdown_mutex);
+
     std::unique_lock<std::mutex> lock(m_mutex);
     m_is_shutdown = true;
 
diff --git a/lib/src/ModbusManagerImpl.h b/lib/src/ModbusManagerImpl.h
index fe1f4b7..4a9b8e1 100644
--- a/lib/src/ModbusManagerImpl.h
+++ b/lib/src/ModbusManagerImpl.h
@@ -47,6 +47,7 @@ private:
     std::shared_ptr<Logger> m_logger;
     exe4cpp::ThreadPool m_thread_pool;
 
+    std::mutex m_shutdown_mutex;
     std::mutex m_mutex;
     std::vector<std::shared_ptr<IClientChannel>> m_client_channels;
     std::vector<std::shared_ptr<IServerChannel>> m_server_channels;
-- 
2.43.0


From a02b841bc545935053427b93a3a48491c28ef1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 22/23] fix: a schedule cannot be started again after its
 session was shut down

Such a schedule was not stopped by the shutdown of the channel or the manager,
and its timer kept the shutdown of the manager waiting for a whole period.
---
 lib/src/client/session/ClientSessionImpl.cpp |  4 ++--
 lib/src/client/session/ClientSessionImpl.h   |  3 ++-
 lib/src/client/session/ScheduledRequest.h    | 12 +++++++++++-
 lib/src/client/session/ScheduledRequest.hpp  | 12 +++++++++++-
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/src/client/session/ClientSessionImpl.cpp b/lib/src/client/session/ClientSessionImpl.cpp
index 526027c..c62087d 100644
--- a/lib/src/client/session/ClientSessionImpl.cpp
+++ b/lib/src/client/session/ClientSessionImpl.cpp
@@ -60,7 +60,7 @@ void ClientSessionImpl::shutdown()
 
         for(auto& req : m_scheduled_requests)
         {
-            req->stop();
+            req->cancel();
         }
 
         m_scheduled_requests.clear();
@@ -278,7 +278,7 @@ std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(cons
         // The session may have been shut down in the meantime
         if(m_is_shutdown)
         {
-            scheduled_request->stop();
+            scheduled_request->cancel();
             return;
         }
 
diff --git a/lib/src/client/session/ClientSessionImpl.h b/lib/src/client/session/ClientSessionImpl.h
index d2bd612..23cc8da 100644
--- a/lib/src/client/session/ClientSessionImpl.h
+++ b/lib/src/client/session/ClientSessionImpl.h
@@ -27,6 +27,7 @@ namespace modbus
 {
 
 class Logger;
+class ICancellableScheduledRequest;
 class IClientChannelImpl;
 class UnitIdentifier;
 
@@ -148,7 +149,7 @@ private:
     duration_t m_default_timeout;
 
     bool m_is_shutdown;
-    std::vector<std::shared_ptr<IScheduledRequest>> m_scheduled_requests;
+    std::vector<std::shared_ptr<ICancellableScheduledRequest>> m_scheduled_requests;
 };
 
 } // namespace modbus
diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index b34e922..dd7294b 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -30,8 +30,15 @@ namespace modbus
 
 class IClientSession;
 
+class ICancellableScheduledRequest : public IScheduledRequest
+{
+public:
+    /// Stop the polling for good: it cannot be started again
+    virtual void cancel() = 0;
+};
+
 template<typename TRequest, typename TResponse>
-class ScheduledRequest : public IScheduledRequest
+class ScheduledRequest : public ICancellableScheduledRequest
 {
 public:
     ScheduledRequest(std::shared_ptr<IClientSession> session,
@@ -49,6 +56,8 @@ public:
     void set_frequency(const duration_t& frequency) override;
     duration_t get_frequency() const override;
 
+    void cancel() override;
+
 private:
     void execute(unsigned int run);
 
@@ -60,6 +69,7 @@ private:
     std::atomic<duration_t> m_frequency;
 
     std::atomic<bool> m_running;
+    bool m_cancelled;
     unsigned int m_current_run;
     exe4cpp::Timer m_timer;
 };
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index cfc1a17..92e08be 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_cancelled{false},
       m_current_run{0},
       m_timer{nullptr}
 {
@@ -48,7 +49,7 @@ template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::start()
 {
     m_executor->post([=, self = shared_from_this()]() {
-        if(!m_running)
+        if(!m_running && !m_cancelled)
         {
             m_running = true;
             execute(++m_current_run);
@@ -68,6 +69,15 @@ void ScheduledRequest<TRequest, TResponse>::stop()
     });
 }
 
+template<typename TRequest, typename TResponse>
+void ScheduledRequest<TRequest, TResponse>::cancel()
+{
+    m_executor->post([=, self = shared_from_this()]() {
+        m_cancelled = true;
+    });
+    stop();
+}
+
 template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::set_frequency(const duration_t& frequency)
 {
-- 
2.43.0


From 8d05b57d63f32e6c69cf0a383766b40ff1c2c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 23/23] fix: the manager waits until its channels have shut
 down before its threads end

A call on a channel that was under way in another thread could hold up the
posted shutdown of the channel while the threads ran out of work and ended:
its sockets stayed open and its sessions were never told.
---
 lib/src/ModbusManagerImpl.cpp | 17 ++++++++++++++---
 lib/src/ModbusManagerImpl.h   |  6 +++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index ec6bf24..13f6efd 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -58,7 +58,7 @@ std::shared_ptr<IClientChannel> ModbusManagerImpl::create_client_tcp_channel(con
 
     {
         std::lock_guard<std::mutex> lock(m_mutex);
-        register_channel(m_client_channels, channel);
+        register_channel(m_client_channels, channel, executor);
     }
 
     return channel;
@@ -81,18 +81,21 @@ std::shared_ptr<IServerChannel> ModbusManagerImpl::create_server_tcp_channel(con
 
     {
         std::lock_guard<std::mutex> lock(m_mutex);
-        register_channel(m_server_channels, channel);
+        register_channel(m_server_channels, channel, executor);
     }
 
     return channel;
 }
 
 template <typename Channel, typename Impl>
-void ModbusManagerImpl::register_channel(std::vector<std::shared_ptr<Channel>>& channels, const std::shared_ptr<Impl>& channel)
+void ModbusManagerImpl::register_channel(std::vector<std::shared_ptr<Channel>>& channels,
+                                         const std::shared_ptr<Impl>& channel,
+                                         const std::shared_ptr<exe4cpp::IExecutor>& executor)
 {
     if(!m_is_shutdown)
     {
         channels.emplace_back(channel);
+        m_executors.emplace_back(executor);
     }
     else if(!m_is_stopped)
     {
@@ -121,6 +124,14 @@ void ModbusManagerImpl::shutdown()
     }
     m_server_channels.clear();
 
+    // A call on a channel in another thread may be holding up what was just posted, and the threads
+    // would run out of work meanwhile: they must not end before the channels are shut down
+    for(auto& executor : m_executors)
+    {
+        executor->post([work = std::make_shared<asio::io_service::work>(*m_io_service)] {});
+    }
+    m_executors.clear();
+
     // The callbacks that are still queued must be able to use the manager while the threads are joined
     lock.unlock();
     m_thread_pool.shutdown();
diff --git a/lib/src/ModbusManagerImpl.h b/lib/src/ModbusManagerImpl.h
index 4a9b8e1..13a1d0b 100644
--- a/lib/src/ModbusManagerImpl.h
+++ b/lib/src/ModbusManagerImpl.h
@@ -17,6 +17,7 @@
 #define MODBUS_MODBUSMANAGERIMPL_H
 
 #include <mutex>
+#include "exe4cpp/IExecutor.h"
 #include "exe4cpp/asio/ThreadPool.h"
 #include "modbus/IModbusManager.h"
 
@@ -41,7 +42,9 @@ public:
 
 private:
     template <typename Channel, typename Impl>
-    void register_channel(std::vector<std::shared_ptr<Channel>>& channels, const std::shared_ptr<Impl>& channel);
+    void register_channel(std::vector<std::shared_ptr<Channel>>& channels,
+                          const std::shared_ptr<Impl>& channel,
+                          const std::shared_ptr<exe4cpp::IExecutor>& executor);
 
     std::shared_ptr<asio::io_service> m_io_service;
     std::shared_ptr<Logger> m_logger;
@@ -51,6 +54,7 @@ private:
     std::mutex m_mutex;
     std::vector<std::shared_ptr<IClientChannel>> m_client_channels;
     std::vector<std::shared_ptr<IServerChannel>> m_server_channels;
+    std::vector<std::shared_ptr<exe4cpp::IExecutor>> m_executors;
     bool m_is_shutdown;
     bool m_is_stopped;
 };
-- 
2.43.0

