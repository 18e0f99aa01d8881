From b79a45a821c276274f1a968384ce5a880c1714b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:49 +0000
Subject: [PATCH 01/62] fix: srt publish is refused on a host whose role is not
 source

---
 src/module/srt/sps_srt_stream_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/srt/sps_srt_stream_handler.cpp b/src/module/srt/sps_srt_stream_handler.cpp
index 9b50580..74f8b6a 100644
--- a/src/module/srt/sps_srt_stream_handler.cpp
+++ b/src/module/srt/sps_srt_stream_handler.cpp
@@ -56,6 +56,11 @@ error_t SrtServerStreamHandler::publish(IConnection &c) {
     auto cache         = StreamCache::get_streamcache(url);
     error_t     ret    = SUCCESS;
 
+    if (!ctx.host || !ctx.host->publish()) {
+        sp_error("not support publish! %s", ctx.req->get_host());
+        return ERROR_STREAM_PUBLISH_NOT_SUPPORT;
+    }
+
     if (cache) {
         sp_error("cannot publish twice %s", url.c_str());
         return ERROR_RTMP_HAS_SOURCE;
-- 
2.43.0


From f514e4f8c349895874f5f3b53a22b190b6b566f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:49 +0000
Subject: [PATCH 02/62] fix: an edge pull no longer replaces a live source of
 the same name, nor uses a missing demuxer

---
 src/module/stream/sps_stream_edge.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index f6898ea..9dfab01 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -68,6 +68,18 @@ error_t StreamEdge::handler() {
 
     do {
         auto dec = avf.create(io, url);
+        if (!dec) {
+            sp_error("Fail found decoder %s-%s", url->get_host(), url->get_url());
+            ret = ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
+            break;
+        }
+
+        if (StreamCache::get_streamcache(key)) {
+            sp_error("Fail edge, has source %s", key.c_str());
+            ret = ERROR_HTTP_HAS_SOURCE;
+            break;
+        }
+
         cache    = StreamCache::create_av_streamcache(key);
         cache->set_ctx(dec->get_av_ctx());
         cond->signal();
-- 
2.43.0


From 318e04c7b44af84c454fa6347440246d07a512de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:49 +0000
Subject: [PATCH 03/62] fix: a stopped edge releases its stream once, not again
 when destroyed

---
 src/module/stream/sps_stream_edge.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 9dfab01..168ce20 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -108,6 +108,7 @@ error_t StreamEdge::stop() {
 
     if (cache) {
         StreamCache::release_av_streamcache(key);
+        cache = nullptr;
     }
     SingleInstance<StreamEdgeManager>::get_instance().cancel(key);
 
-- 
2.43.0


From 067f0801a9d6a3e5726829c262cb07a6575d1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:48 +0000
Subject: [PATCH 04/62] fix: the raw ts cache restarts at a payload unit start
 instead of growing for ever

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..9c0dac1 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -121,7 +121,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..a09ad2d 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,7 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{ts_type | (int) ((uint32_t) payload_unit_start_indicator << 31)},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From a465345e4cae29c7a742ddf4a5cb6fd3461a8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 05/62] fix: failures of set_av_ctx, an edge start, rtcp report
 blocks and the 404 reply are passed on

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp  | 8 ++++++--
 src/module/http/sps_http_phase_handler.cpp | 2 +-
 src/module/stream/sps_stream_edge.cpp      | 2 +-
 src/module/stream/sps_stream_handler.cpp   | 8 ++++++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..6fe6dbc 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -86,7 +86,9 @@ error_t RtcpSRDecoder::decode(RtcpHead& h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         RtcpSRReportBlock rb;
-        rb.decode(bc);
+        if ((ret = rb.decode(bc)) != SUCCESS) {
+            return ret;
+        }
         report_blocks.push_back(rb);
     }
 
@@ -113,7 +115,9 @@ error_t RtcpRRDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         RtcpSRReportBlock rb;
-        rb.decode(bc);
+        if ((ret = rb.decode(bc)) != SUCCESS) {
+            return ret;
+        }
         report_blocks.push_back(rb);
     }
 
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 5f21fc8..11e5892 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -77,7 +77,7 @@ error_t Http404PhaseHandler::handler(IConnection& ctx) {
     auto ret = http_socket->write_header();
 
     sp_trace("Response http 404 %d", ret);
-    return SPS_PHASE_SUCCESS_NO_CONTINUE;
+    return ret == SUCCESS ? SPS_PHASE_SUCCESS_NO_CONTINUE : ret;
 }
 
 }  // namespace sps
diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index 168ce20..c7c7b79 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -165,7 +165,7 @@ error_t StreamEdgeEnter::start_edge(const std::string& key, PHostModule& host, P
 
 fail:
     sp_trace("Starting edge %s:%d, url %s", ip.c_str(), port, proxy_url.c_str());
-    return wait_edge(key);
+    return ret == SUCCESS ? wait_edge(key) : ret;
 }
 
 }
diff --git a/src/module/stream/sps_stream_handler.cpp b/src/module/stream/sps_stream_handler.cpp
index 1884451..10e255c 100644
--- a/src/module/stream/sps_stream_handler.cpp
+++ b/src/module/stream/sps_stream_handler.cpp
@@ -107,10 +107,14 @@ error_t StreamHandler::play(HostContext &ctx) {
         sp_error("Failed found encoder for ext %s", ctx.req->ext.c_str());
         return ERROR_AVFORMAT_ENCODER_NOT_EXISTS;
     }
-    auto cc  = StreamCache::get_client_streamcache(url, 10 * 1000 * 1000);
 
     // support ffmpeg ctx
-    enc->set_av_ctx((IAVContext*) cache->get_ctx());
+    if ((ret = enc->set_av_ctx((IAVContext*) cache->get_ctx())) != SUCCESS) {
+        sp_error("Failed set av ctx %s, ret %d", url.c_str(), ret);
+        return ret;
+    }
+
+    auto cc  = StreamCache::get_client_streamcache(url, 10 * 1000 * 1000);
     StreamEncoder stream_encoder(enc, cc);
     ret = stream_encoder.encode();
     cache->cancel(cc);
-- 
2.43.0


From 04175b976128c94e6146a9b5bf9920df672b4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 06/62] fix: the fallback bind of an srt listener passes the
 address length

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index b1d7769..8f5cdc2 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -313,7 +313,7 @@ failed:
         }
 
         if (srt_bind(fd, reinterpret_cast<struct sockaddr*>(&self_addr),
-                sizeof(self_addr) == SRT_ERROR)) {
+                sizeof(self_addr)) == SRT_ERROR) {
             sp_error("[srt_bind]: socket addr failed, server:%s, port:%d", server.c_str(), port);
             return ERROR_SRT_SOCKET_BIND;
         }
-- 
2.43.0


From 111a76ebf6424c562557680f41989843f63caf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:19 +0000
Subject: [PATCH 07/62] fix: a configuration value that cannot be set is
 refused

---
 src/module/sps_module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 723a584..08e0dcf 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -141,7 +141,12 @@ error_t IModule::init_conf(PIReader rd) {
                     return ERROR_CONFIG_PARSE_INVALID;
                 }
 
-                opts[i].opt_set(conf.get(), arg.c_str(), arg.size());
+                ret = opts[i].opt_set(conf.get(), arg.c_str(), arg.size());
+                if (ret != SUCCESS) {
+                    sp_error("failed set line:%d, %s %s, ret:%d",
+                              rd->cur_line_num(), name.c_str(), arg.c_str(), ret);
+                    return ret;
+                }
                 sp_debug("set %s { %s->%s } success", this->name,
                            opts[i].name, arg.c_str());
 
-- 
2.43.0


From a0601b4f0d8ed35dc3f72e9e94efc4b68b3726dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:46 +0000
Subject: [PATCH 08/62] fix: a log line is printed as text, not interpreted as
 a format

---
 src/log/sps_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log/sps_log.cpp b/src/log/sps_log.cpp
index f33fc66..87436f5 100644
--- a/src/log/sps_log.cpp
+++ b/src/log/sps_log.cpp
@@ -46,7 +46,7 @@ void ConsoleLog::printf(LOG_LEVEL lev, const char *fmt, ...) {
     va_start(args, fmt);
     vsnprintf(buf + len, sizeof(buf) - len, fmt, args);
     va_end(args);
-    ::printf(buf);
+    ::printf("%s", buf);
 }
 
 ILog* default_log = new ConsoleLog();
-- 
2.43.0


From d18e020c5b70917cc9d444bd00dcc9cdda6aa009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:46 +0000
Subject: [PATCH 09/62] fix: the message of a failed socket option has all its
 arguments

---
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 22062b9..9229a2c 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -38,7 +38,7 @@ namespace sps {
 
 int SockOpt::apply(st_netfd_t fd) {
     if (setsockopt(st_netfd_fileno(fd), level, optname, optval, optlen) < 0) {
-        sp_error("SockOpt:::%d %d %d", st_netfd_fileno(fd), optname);
+        sp_error("SockOpt:::%d %d %d", st_netfd_fileno(fd), level, optname);
         return -1;
     }
     return 0;
-- 
2.43.0


From c717fedffde220f3fb7d19ea3a665c0c7e9fcf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 10/62] fix: merging routers keeps the default host of the
 merged one

---
 src/module/host/sps_host_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index 35a275b..ab47482 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -220,6 +220,10 @@ error_t HostModulesRouter::merge(HostModulesRouter *router) {
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
+    if (router->default_host) {
+        default_host = router->default_host;
+    }
+
     for (auto& it : router->exact_hosts) {
         if (exact_hosts.count(it.first)) {
             sp_error("fail host merge dup exact %s", it.first.c_str());
-- 
2.43.0


From 9925df2ab75794212e2ffd414125c413cf08d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 11/62] fix: an api host is served by the api handler

---
 src/module/host/sps_host_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/host/sps_host_module.cpp b/src/module/host/sps_host_module.cpp
index ab47482..fba9491 100644
--- a/src/module/host/sps_host_module.cpp
+++ b/src/module/host/sps_host_module.cpp
@@ -92,7 +92,7 @@ bool HostModule::is_streaming() {
 
 bool HostModule::is_api() {
     auto host = static_cast<HostConfCtx*>(conf.get());
-    return string_hostype(host->type) == STREAMING;
+    return string_hostype(host->type) == API;
 }
 
 bool HostModule::support_publish(const std::string& format) {
-- 
2.43.0


From 9fa81cf61281f1ab0bcf917970073f469a6cef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 12/62] fix: the hosts of a second server block of a port reach
 the router of that port

---
 src/module/server/sps_server_module.cpp | 19 +++++++++++++++++--
 src/module/server/sps_server_module.hpp |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/module/server/sps_server_module.cpp b/src/module/server/sps_server_module.cpp
index f0dce52..4cdb503 100644
--- a/src/module/server/sps_server_module.cpp
+++ b/src/module/server/sps_server_module.cpp
@@ -45,6 +45,7 @@ PServerModule ServerModule::get_server(ServerModule *sm) {
 error_t ServerModule::get_router(ServerModule* sm, PHostModulesRouter& hr) {
     error_t ret = SUCCESS;
     hr  = std::make_shared<HostModulesRouter>();
+    sm->router = hr;
 
     for (auto& h : sm->host_modules) {
         if ((ret = hr->register_host(h)) != SUCCESS) {
@@ -214,8 +215,22 @@ error_t ServerModule::merge_server(PServerModule server_module) {
 }
 
 error_t ServerModule::merge_hosts(std::vector<PHostModule>& hosts) {
-    host_modules.insert(host_modules.end(), hosts.begin(), hosts.end());
-    return SUCCESS;
+    error_t ret = SUCCESS;
+
+    for (auto& h : hosts) {
+        if (std::find(host_modules.begin(), host_modules.end(), h)
+                != host_modules.end()) {
+            continue;  // global host already merged
+        }
+
+        // installed server routes by router
+        if (router && (ret = router->register_host(h)) != SUCCESS) {
+            sp_error("fail merge host %s ret %d", h->module_name.c_str(), ret);
+            return ret;
+        }
+        host_modules.push_back(h);
+    }
+    return ret;
 }
 
 
diff --git a/src/module/server/sps_server_module.hpp b/src/module/server/sps_server_module.hpp
index 238038e..895523c 100644
--- a/src/module/server/sps_server_module.hpp
+++ b/src/module/server/sps_server_module.hpp
@@ -112,6 +112,7 @@ class ServerModule : public IModule {
 
  private:
     PIConnHandlerFactory socket_handler;
+    PHostModulesRouter   router;  // router of the installed hosts
     PServer              server;
 };
 
-- 
2.43.0


From 7c98a1b5393270f6d98782173428d836a3a55713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 13/62] fix: the location option table is terminated

---
 src/module/host/sps_host_loc_module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/host/sps_host_loc_module.hpp b/src/module/host/sps_host_loc_module.hpp
index 3baa0ac..18e95d9 100644
--- a/src/module/host/sps_host_loc_module.hpp
+++ b/src/module/host/sps_host_loc_module.hpp
@@ -39,6 +39,7 @@ struct LocationConfCtx : public HostConfCtx {
 #define OFFSET(x) offsetof(LocationConfCtx, x)
 static const ConfigOption loc_options[] = {
         HOST_OPTIONS,
+        {nullptr }
 };
 #undef OFFSET
 
-- 
2.43.0


From 848488f4bda58b85b866d27096e4ab362b655809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 14/62] fix: the enabled option of a host has the type that is
 written to it

---
 src/module/host/sps_host_module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/host/sps_host_module.hpp b/src/module/host/sps_host_module.hpp
index e202501..f90615f 100644
--- a/src/module/host/sps_host_module.hpp
+++ b/src/module/host/sps_host_module.hpp
@@ -55,7 +55,7 @@ enum HostType {
 HostType string_hostype(const std::string& host);
 
 struct HostConfCtx : public ConfCtx {
-    int         enabled;  // off when disabled, on enabled
+    bool        enabled;  // off when disabled, on enabled
     std::string pass_proxy;   // address
     std::string pass_url;     // pass_url
     std::string role;         // edge or source
-- 
2.43.0


From 40c6c17ad9670506a02db900a99cee5ea01a5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 15/62] fix: an on/off option does not read past the end of its
 text

---
 src/module/sps_module_opt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/sps_module_opt.cpp b/src/module/sps_module_opt.cpp
index 89ad432..928366c 100644
--- a/src/module/sps_module_opt.cpp
+++ b/src/module/sps_module_opt.cpp
@@ -86,7 +86,7 @@ error_t ConfigOption::opt_set(void *obj, const char *val, int len) const {
             sp_debug("set string { %s->%s } success", name, val);
             break;
         case CONF_OPT_TYPE_BOOL: {
-            bool num = memcmp(val, "on", 2) == 0;
+            bool num = strncmp(val, "on", 2) == 0;
             memcpy(dst, (void*) &num, sizeof(num));
 
             sp_debug("------------------bool val %s -> %d-----------",
-- 
2.43.0


From ce413f36b1e74e76716b43418f33c32ff67490e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 16/62] fix: words before the end of a configuration block are
 refused, not dropped

---
 src/module/sps_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/sps_module.cpp b/src/module/sps_module.cpp
index 08e0dcf..8420316 100644
--- a/src/module/sps_module.cpp
+++ b/src/module/sps_module.cpp
@@ -285,6 +285,11 @@ error_t IModule::parse(const std::string &line, std::string &cmd,
         return ERROR_CONFIG_PARSE_INVALID;
     }
 
+    if (lt == SUBMODULE_END) {  // the end of a module stands alone
+        sp_error("unexpected words before the end %s.", line.c_str());
+        return ERROR_CONFIG_PARSE_INVALID;
+    }
+
     cmd = args[0];
     if (cmd == "{" || cmd == "}") {
         sp_error("unknown cmd line type %s.", line.c_str());
-- 
2.43.0


From 2bfb3f9f05b44312795fc88648434fdb09684f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 17/62] fix: a header ends at its empty line, not at an earlier
 line that looks similar

---
 src/module/http/sps_http_parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index c062568..57d4975 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -161,9 +161,7 @@ int HttpParser::parse_header(PIReader io, HttpType ht) {
         } else {
             if (*(p-1) != '\r') {
                 state = 4;
-            }
-
-            if (*(p-2) != '\n' && *(p-3) != '\r')  {
+            } else if (*(p-2) != '\n' || *(p-3) != '\r')  {
                 state = 2;
             } else {
                 break;
-- 
2.43.0


From 8712a0405be5d0f1b78225e83544cd397fdc17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 18/62] fix: a malformed http header is an error, not a request
 or response without content

---
 src/module/http/sps_http_parser.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 57d4975..0cb9ec4 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -183,15 +183,21 @@ int HttpParser::parse_header(const char *b, int len, HttpType ht) {
 
     size_t parsed = http_parser_execute(&ctx->http, &http_setting, b, len);
 
-    if (parsed == 0) {
-        sp_error("parse execute zero %.*s", len, b);
+    if (parsed != (size_t) len || HTTP_PARSER_ERRNO(&ctx->http) != HPE_OK) {
+        sp_error("parse failed at %zu %.*s", parsed, len, b);
+        return -ERROR_HTTP_HEADER_PARSE;
     }
 
-    if ((ht == HttpType::REQUEST || ht == HttpType::BOTH) && parsed >= 0)  {
-        ctx->parse_request();
-    } else if ((ht == HttpType::RESPONSE || ht == HttpType::BOTH)
-            && parsed >= 0) {
-        ctx->parse_response();
+    int ret = SUCCESS;
+    if (ht == HttpType::REQUEST || ht == HttpType::BOTH)  {
+        ret = ctx->parse_request();
+    } else if (ht == HttpType::RESPONSE || ht == HttpType::BOTH) {
+        ret = ctx->parse_response();
+    }
+
+    if (ret != SUCCESS && ht != HttpType::BOTH) {
+        sp_error("failed parse ret %d %.*s", ret, len, b);
+        return -ERROR_HTTP_HEADER_PARSE;
     }
 
     sp_debug("parsed: %zu, ht:%u", parsed, ht);
-- 
2.43.0


From 197dc2822da0efd922b8e86f002eb66803a49b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 19/62] fix: the names of http headers are compared without
 case

---
 src/io/url/sps_io_url.cpp           | 7 ++++---
 src/module/http/sps_http_parser.cpp | 7 +++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index a597b66..d1c89f7 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_io_url.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <sps_log.hpp>
 
@@ -168,14 +169,14 @@ const char * RequestUrl::get_ext() {
 
 std::string RequestUrl::get_header(const std::string& key) {
     for (auto& h : headers) {
-        if (h.key == key) return h.value;
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) return h.value;
     }
     return "";
 }
 
 void RequestUrl::erase_header(const std::string &key) {
     for (auto it = headers.begin(); it != headers.end(); ++it) {
-        if (it->key == key) {
+        if (strcasecmp(it->key.c_str(), key.c_str()) == 0) {
             headers.erase(it);
             return;
         }
@@ -190,7 +191,7 @@ std::string RequestUrl::get_param(const std::string& key) {
 }
 
 bool RequestUrl::is_chunked() {
-    return get_header("Transfer-Encoding") == "chunked";
+    return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
 int RequestUrl::get_content_length() {
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 0cb9ec4..92cd23f 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -22,6 +22,9 @@ SOFTWARE.
 *****************************************************************************/
 
 #include <sps_http_parser.hpp>
+
+#include <strings.h>
+
 #include <log/sps_log.hpp>
 
 namespace sps {
@@ -53,7 +56,7 @@ const char* HttpParserContext::method() {
 
 bool HttpParserContext::contains(const std::string& key, std::string* value) {
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             if (value) *value = h.value;
             return true;
         }
@@ -66,7 +69,7 @@ bool HttpParserContext::contains(const std::string& key,
     if (!vs) return contains(key, (std::string*) nullptr);
 
     for (auto& h : headers) {
-        if (h.key == key) {
+        if (strcasecmp(h.key.c_str(), key.c_str()) == 0) {
             (*vs).push_back(h.value);
         }
     }
-- 
2.43.0


From a7de2702a1c9b765f0bdfea2615b0ef0d9a0f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 20/62] fix: a chunk length that is no number is an error, not
 the end of the body

---
 src/io/url/sps_io_url_http.cpp      | 6 ++++++
 src/module/http/sps_http_socket.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index daf8c23..64eb51e 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -30,6 +30,7 @@ SOFTWARE.
 #include <algorithm>
 #include <list>
 #include <memory>
+#include <cctype>
 #include <sstream>
 #include <string>
 
@@ -168,6 +169,11 @@ error_t HttpUrlProtocol::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
+    if (!isxdigit((unsigned char) tmp_buf[0])) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
     nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
 
     sp_debug("read chunked length %lu", nb_chunked_size);
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 17b37d8..698cbeb 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -25,6 +25,7 @@ SOFTWARE.
 
 #include <http_parser.h>
 
+#include <cctype>
 #include <sstream>
 
 #include <sps_http_parser.hpp>
@@ -118,6 +119,11 @@ error_t HttpRequestSocket::read_chunked_length() {
 
     tmp_buf[i-2] = '\0';  // \r
 
+    if (!isxdigit((unsigned char) tmp_buf[0])) {
+        sp_error("invalid read chunked length %s", tmp_buf);
+        return ERROR_HTTP_CHUNKED_INVALID;
+    }
+
     nb_chunked_left = nb_chunked_size = std::strtoul(tmp_buf, nullptr, 16);
 
     sp_debug("read chunked length %lu", nb_chunked_size);
-- 
2.43.0


From 5d95a10c6feba0b05fd7e9f7dcab27e1b2b0290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 21/62] fix: a body of length zero is at its end, nothing is
 read for it

---
 src/io/url/sps_io_url_http.cpp      | 4 ++++
 src/module/http/sps_http_socket.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 64eb51e..5ab0661 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -108,6 +108,10 @@ error_t HttpUrlProtocol::read(void *buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (rsp->content_length >= 0) {
+        if (nread >= rsp->content_length) {
+            is_eof = true;
+            return ERROR_HTTP_RES_EOF;
+        }
         size = std::min(rsp->content_length-nread, size);
     }
 
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 698cbeb..5c91d7b 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -54,6 +54,10 @@ error_t HttpRequestSocket::read(void* buf, size_t size, size_t& nr) {
 
     // Content-Length default -1, no limited
     if (content_length >= 0) {
+        if (nread >= content_length) {
+            is_eof = true;
+            return ERROR_HTTP_RES_EOF;
+        }
         size = std::min(content_length-nread, size);
     }
 
-- 
2.43.0


From 236f6d9f4573bb5c6f0287ffeb47a4a02dec45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 22/62] fix: a forwarded http message carries one framing
 header, not the original one as well

---
 src/io/url/sps_io_url_http.cpp      | 6 +++++-
 src/module/http/sps_http_socket.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index 5ab0661..f1999f7 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -30,6 +30,8 @@ SOFTWARE.
 #include <algorithm>
 #include <list>
 #include <memory>
+#include <strings.h>
+
 #include <cctype>
 #include <sstream>
 #include <string>
@@ -45,7 +47,9 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host")
+            if (h.key != "Host"
+                    && strcasecmp(h.key.c_str(), "Content-Length") != 0
+                    && strcasecmp(h.key.c_str(), "Transfer-Encoding") != 0)
                 ss << h.key << ": " << h.value << CRCN;
     }
 
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index 5c91d7b..c48d101 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_http_socket.hpp>
 
 #include <http_parser.h>
+#include <strings.h>
 
 #include <cctype>
 #include <sstream>
@@ -198,7 +199,10 @@ error_t HttpResponseSocket::write_header() {
     }
 
     for (auto& h : headers) {
-        if (h.key == "Content-Length" && content_sent) {
+        // the framing is the one written above
+        if ((chunked || content_sent)
+                && (strcasecmp(h.key.c_str(), "Content-Length") == 0
+                || strcasecmp(h.key.c_str(), "Transfer-Encoding") == 0)) {
             continue;
         }
 
-- 
2.43.0


From 9b6927a6f554d6df7080ace5f82424a98c1646f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:52 +0000
Subject: [PATCH 23/62] fix: the refusal of a stream request has a length, the
 connection stays open

---
 src/module/http/sps_http_stream_phase_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/http/sps_http_stream_phase_handler.cpp b/src/module/http/sps_http_stream_phase_handler.cpp
index 1d6b05c..1f7fe96 100644
--- a/src/module/http/sps_http_stream_phase_handler.cpp
+++ b/src/module/http/sps_http_stream_phase_handler.cpp
@@ -50,14 +50,14 @@ error_t HttpStreamPhaseHandler::handler(IConnection& c) {
     ret = sh->handler(c);
 
     if (ret == ERROR_STREAM_PUBLISH_NOT_SUPPORT) {
-        rsp->init(403, nullptr, -1, false);
+        rsp->init(403, nullptr, 0, false);
         ret = rsp->write_header();
         sp_warn("Response %s:%d not-support %s-%s-%s status %d %d",
                 ctx.req->ip.c_str(), ctx.req->port,
                 ctx.req->get_host(), ctx.req->get_url(), ctx.req->get_params(), 403, ret);
         return ret;
     } else if (ret == ERROR_STREAM_SOURCE_NOT_EXITS) {
-        rsp->init(404, nullptr, -1, false);
+        rsp->init(404, nullptr, 0, false);
         ret = rsp->write_header();
         sp_trace("Response not-exits %s:%d %s-%s-%s status %d %d",
                  ctx.req->ip.c_str(), ctx.req->port,
-- 
2.43.0


From b3998f8735e3c6295e3c725869f6746c780bfabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:05 +0000
Subject: [PATCH 24/62] fix: a forwarded request names its host once, whatever
 the case of the header

---
 src/io/url/sps_io_url_http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_http.cpp b/src/io/url/sps_io_url_http.cpp
index f1999f7..579710a 100644
--- a/src/io/url/sps_io_url_http.cpp
+++ b/src/io/url/sps_io_url_http.cpp
@@ -47,7 +47,7 @@ std::string http_request(const std::string& method, const std::string& url,
 
     if (headers) {
         for (auto& h : *headers)
-            if (h.key != "Host"
+            if (strcasecmp(h.key.c_str(), "Host") != 0
                     && strcasecmp(h.key.c_str(), "Content-Length") != 0
                     && strcasecmp(h.key.c_str(), "Transfer-Encoding") != 0)
                 ss << h.key << ": " << h.value << CRCN;
-- 
2.43.0


From e8794143f3b23a8d5b54f18d0960df8361e9ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:05 +0000
Subject: [PATCH 25/62] fix: the unread body of a request is not taken for the
 next request

---
 src/module/http/sps_http_phase_handler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 11e5892..74b0cd7 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -37,6 +37,13 @@ HttpParsePhaseHandler::HttpParsePhaseHandler()
 error_t HttpParsePhaseHandler::handler(IConnection &c) {
     auto http_parser = std::make_shared<HttpParser>();
     error_t ret      = SUCCESS;
+    auto    last     = dynamic_cast<HostContext*>(c.get_context().get());
+
+    // no handler reads the body of a request: what follows is no header
+    if (last && (last->req->is_chunked() || last->req->get_content_length() > 0)) {
+        sp_warn("body of the last request not read %s", last->req->get_url());
+        return ERROR_HTTP_HEADER_PARSE;
+    }
 
     if ((ret = http_parser->parse_header(c.socket,
                                       HttpType::REQUEST)) <= SUCCESS) {
-- 
2.43.0


From 6a37c7d7c7dd2379ee494e72d14e83fff82923c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:19 +0000
Subject: [PATCH 26/62] fix: the length of a body of 2 GiB and more is not cut
 to 32 bits

---
 src/io/url/sps_io_url.cpp                        | 4 ++--
 src/io/url/sps_io_url.hpp                        | 2 +-
 src/module/http/sps_http_parser.cpp              | 2 +-
 src/module/http/sps_http_parser.hpp              | 4 ++--
 src/module/http/sps_http_phase_handler.cpp       | 2 +-
 src/module/http/sps_http_proxy_phase_handler.cpp | 4 ++--
 src/module/http/sps_http_socket.cpp              | 4 ++--
 src/module/http/sps_http_socket.hpp              | 8 ++++----
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/io/url/sps_io_url.cpp b/src/io/url/sps_io_url.cpp
index d1c89f7..2afacf1 100644
--- a/src/io/url/sps_io_url.cpp
+++ b/src/io/url/sps_io_url.cpp
@@ -194,13 +194,13 @@ bool RequestUrl::is_chunked() {
     return strcasecmp(get_header("Transfer-Encoding").c_str(), "chunked") == 0;
 }
 
-int RequestUrl::get_content_length() {
+int64_t RequestUrl::get_content_length() {
     std::string cl = get_header("Content-Length");
     if (cl.empty()) {
         return -1;
     }
 
-    return atoi(cl.c_str());
+    return atoll(cl.c_str());
 }
 
 utime_t RequestUrl::get_timeout() {
diff --git a/src/io/url/sps_io_url.hpp b/src/io/url/sps_io_url.hpp
index b6020ba..a5792f9 100644
--- a/src/io/url/sps_io_url.hpp
+++ b/src/io/url/sps_io_url.hpp
@@ -79,7 +79,7 @@ class RequestUrl {
 
  public:
     bool is_chunked();
-    int  get_content_length();
+    int64_t get_content_length();
 
  public:
     utime_t      get_timeout();
diff --git a/src/module/http/sps_http_parser.cpp b/src/module/http/sps_http_parser.cpp
index 92cd23f..66085f8 100644
--- a/src/module/http/sps_http_parser.cpp
+++ b/src/module/http/sps_http_parser.cpp
@@ -38,7 +38,7 @@ std::string HttpResponse::error() {
 }
 
 // http parse的结果
-int HttpParserContext::content_length() {
+int64_t HttpParserContext::content_length() {
     return http.content_length;
 }
 
diff --git a/src/module/http/sps_http_parser.hpp b/src/module/http/sps_http_parser.hpp
index 203c230..9ca5d28 100644
--- a/src/module/http/sps_http_parser.hpp
+++ b/src/module/http/sps_http_parser.hpp
@@ -47,7 +47,7 @@ enum HttpType {
 
 class HttpResponse : public Response {
  public:
-    int   content_length = -1;
+    int64_t content_length = -1;
     int   status_code    = -1;
     bool  chunked        = false;
     std::list<RequestHeader> headers;
@@ -73,7 +73,7 @@ class HttpParserContext {
 
  public:
     // http parse的结果
-    int content_length();
+    int64_t content_length();
     bool is_chunked();
     int status_code();
     const char* method();
diff --git a/src/module/http/sps_http_phase_handler.cpp b/src/module/http/sps_http_phase_handler.cpp
index 74b0cd7..2a8d9f7 100644
--- a/src/module/http/sps_http_phase_handler.cpp
+++ b/src/module/http/sps_http_phase_handler.cpp
@@ -56,7 +56,7 @@ error_t HttpParsePhaseHandler::handler(IConnection &c) {
                                                                                  ;
     c.set_context(ctx);
 
-    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %d",
+    sp_trace("Request %s:%d %s %s %s %s, chunked %d, content-length %ld",
              req->ip.c_str(), req->port, req->get_method(),
              req->host.c_str(), req->url.c_str(), req->params.c_str(),
              req->is_chunked(), req->get_content_length());
diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index c81ac20..d664f35 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -70,11 +70,11 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
     if ((ret = rsp.write_header()) != SUCCESS) {
-        sp_error("write head status: %d, %lu, %d, %d.", http_rsp->status_code,
+        sp_error("write head status: %d, %lu, %ld, %d.", http_rsp->status_code,
                  http_rsp->headers.size(), http_rsp->content_length, ret);
         return ret;
     }
-    sp_debug("write head status %d, %lu, %d.", http_rsp->status_code,
+    sp_debug("write head status %d, %lu, %ld.", http_rsp->status_code,
              http_rsp->headers.size(), http_rsp->content_length);
 
     char   buf[1024];
diff --git a/src/module/http/sps_http_socket.cpp b/src/module/http/sps_http_socket.cpp
index c48d101..6f53a6b 100644
--- a/src/module/http/sps_http_socket.cpp
+++ b/src/module/http/sps_http_socket.cpp
@@ -38,7 +38,7 @@ HttpRequestSocket::HttpRequestSocket(PIReaderWriter rw,
                                      const std::string &ip,
                                      int port,
                                      bool chunked,
-                                     int cl) :
+                                     int64_t cl) :
         Socket(std::move(rw), ip, port) {
     this->chunked        = chunked;
     this->content_length = cl;
@@ -172,7 +172,7 @@ HttpResponseSocket::HttpResponseSocket(PIReaderWriter rw,
 }
 
 error_t HttpResponseSocket::init(int s_code, std::list<RequestHeader> *hd,
-                                 int cl, bool ch) {
+                                 int64_t cl, bool ch) {
     this->status_code    = s_code;
     this->content_length = cl;
     this->chunked        = ch;
diff --git a/src/module/http/sps_http_socket.hpp b/src/module/http/sps_http_socket.hpp
index 2103652..a49f477 100644
--- a/src/module/http/sps_http_socket.hpp
+++ b/src/module/http/sps_http_socket.hpp
@@ -37,7 +37,7 @@ namespace sps {
 class HttpRequestSocket : public Socket {
  public:
     HttpRequestSocket(PIReaderWriter rw, const std::string& ip,
-                      int port, bool chunked, int content_length);
+                      int port, bool chunked, int64_t content_length);
 
  public:
     error_t read(void* buf, size_t size, size_t& nread) override;
@@ -50,7 +50,7 @@ class HttpRequestSocket : public Socket {
 
  public:
     bool   chunked;
-    int    content_length;
+    int64_t content_length;
     bool   is_eof          = false;
     size_t nread           = 0;
     size_t nb_chunked_size = 0;
@@ -63,14 +63,14 @@ class HttpResponseSocket : public Socket {
 
  public:
     error_t init(int s_code, std::list<RequestHeader>* hd,
-                 int content_len, bool chunked);
+                 int64_t content_len, bool chunked);
     error_t write_header();
     error_t write(void* buf, size_t size) override;
 
  private:
     int  status_code    = 200;
     bool sent_header    = false;
-    int  content_length = 0;
+    int64_t content_length = 0;
     bool chunked        = false;
     std::list<RequestHeader> headers;
 };
-- 
2.43.0


From 2125b4029605de91e08a2fb1b2b3e0e828fa3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 27/62] fix: a FLV tag that is shorter than its own header is
 refused, not read beyond

---
 src/avformat/sps_avformat_flvdec.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..084b7d6 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -133,6 +133,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
             stream_type, pkt_type, flags, previous_size, data_size);
 
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
+        if (data_size < 2) {
+            sp_error("audio tag size %d < 2", data_size);
+            return ERROR_FLV_TAG;
+        }
+
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
         // sample_size = flags & 0x02    // (0. 8       1. 16)
@@ -147,6 +152,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         data_size   -=   2;
         pts         = dts;
     } else if (stream_type == AV_STREAM_TYPE_VIDEO) {
+        if (data_size < 1) {
+            sp_error("video tag size %d < 1", data_size);
+            return ERROR_FLV_TAG;
+        }
+
         flags       = rd->read_int8();
 
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
@@ -160,6 +170,11 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("video tag size %d < 4", data_size);
+                return ERROR_FLV_TAG;
+            }
+
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From f9f37e96603237a9e0f626509df3350a0fc478e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 28/62] fix: an ADTS frame that claims more than was received
 is refused

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..05ea73d 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -96,6 +96,10 @@ error_t AdtsFixedHeader::decode(BitContext *bc) {
     no_raw_data_blocks_in_frame = bc->read_bits(2);
 
     if (!protection_absent) {
+        if (bc->acquire(2) != SUCCESS) {
+            sp_error("aac size < 9");
+            return ERROR_AAC_DECODER;
+        }
         crc16 = bc->read_bits(16);
     }
 
@@ -173,6 +177,11 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
         int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+        if (buf_size < 0 || bc.acquire(buf_size) != SUCCESS) {
+            sp_error("aac frame length %d, left %lu", tmp_header.aac_frame_length, bc.size());
+            return ERROR_AAC_DECODER;
+        }
+
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From 479c1b51b6bc46aef7e32230f87caa1b85c9809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:20 +0000
Subject: [PATCH 29/62] fix: the sizes in an avc header are read only when they
 were received

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..53749fb 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -146,6 +146,10 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
 
         int sps_num = bc.read_bits(5);
         for (int i = 0; i < sps_num; ++i) {
+            if (bc.acquire(2) != SUCCESS) {
+                sp_error("fail acquire sps size");
+                return ERROR_H264_DECODER;
+            }
             int nalu_size = bc.read_int16() + 2;
             if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
                 sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
@@ -158,8 +162,16 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
             bc.skip_read_bytes(nalu_size);
         }
 
+        if (bc.acquire(1) != SUCCESS) {
+            sp_error("fail acquire pps num");
+            return ERROR_H264_DECODER;
+        }
         int pps_num = bc.read_int8();
         for (int i = 0; i < pps_num; ++i) {
+            if (bc.acquire(2) != SUCCESS) {
+                sp_error("fail acquire pps size");
+                return ERROR_H264_DECODER;
+            }
             int nalu_size = bc.read_int16() + 2;
             if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
                 sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
-- 
2.43.0


From efcb7a1a5c17f71d0c7085995554450b7e548016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 30/62] fix: the bits of 512 MiB and more are not cut to 32
 bits when they are acquired

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..85c6791 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -57,7 +57,7 @@ size_t BitContext::size() {
 }
 
 error_t BitContext::acquire(uint32_t nbyte) {
-    return acquire_bits(nbyte * 8);
+    return acquire_bits((size_t) nbyte * 8);
 }
 
 error_t BitContext::acquire_bits(size_t nbit) {
-- 
2.43.0


From eaf6d2b4df388217f50a02b99f33c3d93fd61d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 31/62] fix: the decoding order number of a STAP-B is skipped
 only when it was received

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..b112865 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -91,6 +91,9 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
 
     if (tp == STAP_B) {
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
         bc.skip_read_bytes(2);
     }
 
-- 
2.43.0


From a826343f980d774a5834b796a6a5fb394a5c2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 32/62] fix: the decoding order base of a MTAP24 is skipped
 only when it was received

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index b112865..3c1ce66 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -122,6 +122,9 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     int offset_len = tp == MTAP16 ? 2 : 3;
 
     if (tp == MTAP24) {
+        if ((ret = bc.acquire(3)) != SUCCESS) {
+            return ret;
+        }
         bc.skip_read_bytes(3); // donb decoding order number base
     }
 
-- 
2.43.0


From 9be55ce046d3f211fd23790ba7de0c5c44ba0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 33/62] fix: the decoding order number of a FU-B is skipped
 only when it was received

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 3c1ce66..a38f5db 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -167,6 +167,9 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     }
 
     if (fu.indicator.tp == FU_B) {
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
         bc.skip_read_bytes(2); // don
     }
     // start nalu
-- 
2.43.0


From 24e4047405c5b6ec01ca040f9ad5d4b4d92b5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 34/62] fix: fragments that exceed the largest nalu are refused
 instead of aborting

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index a38f5db..7630b6a 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -203,6 +203,13 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    // fragments that never end, the nalu can not be completed
+    if (pkt->remain() < bc.size()) {
+        sp_error("[rtp@h264] fu too large %u+%lu", pkt->size(), bc.size());
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
+
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
-- 
2.43.0


From 137a122f34d3e3e2678d3bce57d2aba32db6c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 35/62] fix: the sdes just added is decoded, not what lies
 beyond the list

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 6fe6dbc..75b9301 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -159,9 +159,9 @@ error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         sdes.push_back(sd);
-        auto it = sdes.end();
+        auto &it = sdes.back();
 
-        if ((ret = it->decode(bc)) != SUCCESS) {
+        if ((ret = it.decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
             return ret;
         }
-- 
2.43.0


From 9ce1fde73467e1cfaaf52a376116f519c301153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 36/62] fix: a BYE or APP packet is skipped only as far as it
 was received

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 75b9301..3f9a733 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -179,8 +179,14 @@ std::string RtcpSDESDecoder::debug() {
 
 error_t RtcpByteDecoder::decode(RtcpHead &h, BitContext &bc) {
     // ssrc + length(1byte) + reason for live
+    error_t ret = bc.acquire(h.length);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
     bc.skip_read_bytes(h.length);
-    return SUCCESS;
+    return ret;
 }
 
 std::string RtcpByteDecoder::debug() {
@@ -189,8 +195,14 @@ std::string RtcpByteDecoder::debug() {
 
 error_t RtcpAppDecoder::decode(RtcpHead &h, BitContext &bc) {
     // ssrc + name(4byte) + application
+    error_t ret = bc.acquire(h.length);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
     bc.skip_read_bytes(h.length);
-    return SUCCESS;
+    return ret;
 }
 
 std::string RtcpAppDecoder::debug() {
-- 
2.43.0


From 8f8c3f63337e74b46fccb9ec7b788a63ce22dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 37/62] fix: a section of a TS packet is read only as far as it
 was received

---
 src/avformat/sps_avformat_ts.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index 3397571..fc65754 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -62,7 +62,8 @@ TsPsiProgram::TsPsiProgram(int pid, TsContext *ctx) : TsProgram(pid, ctx) {
 
 // work as ffmpeg parse_section_header
 error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
-    auto ret = rd.acquire(8);
+    // pointer_field(1, only at the unit start) + section header(8)
+    auto ret = rd.acquire(8 + (pkt->payload_unit_start_indicator ? 1 : 0));
 
     if (ret != SUCCESS) {
         sp_error("no enough size ret %d", ret);
@@ -97,7 +98,14 @@ error_t TsPsiProgram::decode(TsPacket *pkt, BitContext& rd) {
             pid, flags1.section_syntax_indicator, flags1.const_value0, flags1.reserved,
             flags1.section_length, flags1.transport_stream_id);
 
-    ret = psi_decode(pkt, rd);
+    if ((ret = psi_decode(pkt, rd)) != SUCCESS) {
+        return ret;
+    }
+
+    if ((ret = rd.acquire(4)) != SUCCESS) {
+        sp_error("no enough crc size ret %d", ret);
+        return ret;
+    }
 
     crc_32 = rd.read_int32();
 
@@ -108,7 +116,11 @@ TsSdtProgram::TsSdtProgram(int pid, TsContext *ctx) : TsPsiProgram(pid, ctx) {
 }
 
 error_t TsSdtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
-    error_t ret = SUCCESS;
+    error_t ret = rd.acquire(1);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
 
     reserved_future_use = rd.read_int8();
 
@@ -134,6 +146,11 @@ error_t TsPatProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
         }
 
         while (left_length > 0) {
+            if ((ret = rd.acquire(4)) != SUCCESS) {
+                sp_error("no enough pmt info size ret %d", ret);
+                return ret;
+            }
+
             PmtInfo info;
             info.program_number  = rd.read_int16();
             info.reserved        = rd.read_bits(3);
@@ -202,6 +219,11 @@ error_t TsPmtProgram::psi_decode(TsPacket *pkt, BitContext &rd) {
     while (left_length > 0) {
         auto info = std::make_shared<PesInfo>();
 
+        if ((ret = rd.acquire(5)) != SUCCESS) {
+            sp_error("not enough pes info size ret %d", ret);
+            return ret;
+        }
+
         info->header.stream_type = rd.read_int8();
         info->header.reserved1   = rd.read_bits(3);
         info->header.elementary_pid = rd.read_bits(13);
-- 
2.43.0


From d5ae23995d34a7ebb9db0a5fde0e421c59622087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 38/62] fix: the fields of an adaptation field are read only as
 far as the packet reaches

---
 src/avformat/sps_avformat_ts.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index fc65754..ac10e30 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -858,6 +858,10 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
     flags.adaptation_field_extension_flag = rd.read_bits(1);
 
     if (flags.PCR_flag) {
+        if ((ret = rd.acquire(6)) != SUCCESS) {
+            return ret;
+        }
+
         pcr.program_clock_reference_base = rd.read_bits(33);
         pcr.pcr_reserved = rd.read_bits(6);
         pcr.program_clock_reference_extension = rd.read_bits(9);
@@ -865,14 +869,26 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
     }
 
     if (flags.OPCR_flag) {
+        if ((ret = rd.acquire(6)) != SUCCESS) {
+            return ret;
+        }
+
         rd.read_bytes(opcr, 6);
     }
 
     if (flags.splicing_point_flag) {
+        if ((ret = rd.acquire(1)) != SUCCESS) {
+            return ret;
+        }
+
         splice_countdown = rd.read_int8();
     }
 
     if (flags.adaptation_field_extension_flag) {
+        if ((ret = rd.acquire(1)) != SUCCESS) {
+            return ret;
+        }
+
         transport_private_data_length = rd.read_int8();
 
         if ((ret = rd.acquire(transport_private_data_length)) != SUCCESS) {
@@ -886,7 +902,17 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
     }
 
     // stuffing_byte
+    if (rd.pos() - pos > adaption_field_length) {
+        sp_error("adaption field longer than %d", adaption_field_length);
+        return ERROR_TS_PACKET_DECODE;
+    }
+
     stuffing_length = adaption_field_length - (rd.pos() - pos);
+
+    if ((ret = rd.acquire(stuffing_length)) != SUCCESS) {
+        return ret;
+    }
+
     rd.skip_read_bytes(stuffing_length);
 
     return ret;
-- 
2.43.0


From 37b269bc6192a75b43eed9d5149a56fb45ce07fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 39/62] fix: what was received of a video PES is decoded, not
 what its header claimed

---
 src/avformat/sps_avformat_tsdec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index a09ad2d..c9098f9 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -159,7 +159,7 @@ error_t TsDemuxer::on_h264(TsPesContext* pes) {
 
     AVCodecContext ctx(pes->dts, pes->pts, 90);
     ret = video_codec_parser->encode_avc(&ctx, pes->pes_packets->buffer(),
-                                         pes->pes_packet_length, pkts);
+                                         pes->pes_packets->size(), pkts);
 
     if (ret != SUCCESS) {
         sp_error("fail encode video ret %d", ret);
-- 
2.43.0


From 5429f930b2b99d40aab7faf36b6ecbbc318a2c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 40/62] fix: what is appended to a buffer goes behind the room
 left for the head

---
 src/cache/sps_cache_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/sps_cache_buffer.hpp b/src/cache/sps_cache_buffer.hpp
index 753845a..1172e73 100644
--- a/src/cache/sps_cache_buffer.hpp
+++ b/src/cache/sps_cache_buffer.hpp
@@ -78,7 +78,7 @@ class CharBuffer : public IBuffer {
         assert(remain() >= sz);
         len += sz;
     }
-    uint8_t*   pos()              { return buf + len; }
+    uint8_t*   pos()              { return buf + head_len + len; }
     uint32_t   remain()           { return cap_len - len; }
     uint8_t*   head_pos()         { return head_len ? buf : nullptr; }
     uint32_t   head_size()            { return head_len; }
-- 
2.43.0


From af4c35eca5ee478cc613e24f47a163d1e41c0264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 41/62] fix: the high bytes of an integer are read first,
 whatever order the compiler evaluates in

---
 src/io/sps_io_bytes.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/sps_io_bytes.cpp b/src/io/sps_io_bytes.cpp
index 35ad95e..b898148 100644
--- a/src/io/sps_io_bytes.cpp
+++ b/src/io/sps_io_bytes.cpp
@@ -143,15 +143,18 @@ void BytesReader::skip_bytes(size_t n) {
 }
 
 uint16_t BytesReader::read_int16() {
-    return ((uint32_t) read_int8()) << 8u | read_int8();
+    uint32_t high = read_int8();
+    return high << 8u | read_int8();
 }
 
 uint32_t BytesReader::read_int24() {
-    return ((uint32_t) read_int8()) << 16u | read_int16();
+    uint32_t high = read_int8();
+    return high << 16u | read_int16();
 }
 
 uint32_t BytesReader::read_int32() {
-    return ((uint32_t) read_int16()) << 16u |  read_int16();
+    uint32_t high = read_int16();
+    return high << 16u | read_int16();
 }
 
 void BytesReader::read_reverse_bytes(uint8_t* c, size_t n) {
-- 
2.43.0


From 04f86431a975cbaf9de9f931b755e7ae820a820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 42/62] fix: all six bits of a six bit field are written

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 85c6791..ed11831 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From bf89caee7cd14fffcddd8a572316dcb6b3a8f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 43/62] fix: a full read tells how much it read

---
 src/io/sps_io_socket.cpp            |   4 +
 src/io/url/sps_io_url_file.cpp      |   3 +
 src/sys/st/io/sps_sys_st_io_udp.cpp | 926 ++++++++++++++--------------
 3 files changed, 472 insertions(+), 461 deletions(-)

diff --git a/src/io/sps_io_socket.cpp b/src/io/sps_io_socket.cpp
index 655e1ca..319ce0b 100644
--- a/src/io/sps_io_socket.cpp
+++ b/src/io/sps_io_socket.cpp
@@ -90,6 +90,10 @@ error_t Socket::read_fully(void* buf, size_t size, ssize_t* nread) {
         nr = 0;
     } while (n < size);
 
+    if (nread) {
+        *nread = n;
+    }
+
     return ret;
 }
 
diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index b230a07..f137373 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -75,6 +75,9 @@ void FileURLProtocol::close() {
 
 error_t FileURLProtocol::read_fully(void *buf, size_t size, ssize_t *nread) {
     fh.read((char*) buf, size);
+    if (nread) {
+        *nread = fh.gcount();
+    }
     return fh.fail() ? ERROR_IO_EOF : SUCCESS;
 }
 
diff --git a/src/sys/st/io/sps_sys_st_io_udp.cpp b/src/sys/st/io/sps_sys_st_io_udp.cpp
index f5d42e6..d574ca0 100644
--- a/src/sys/st/io/sps_sys_st_io_udp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_udp.cpp
@@ -1,462 +1,466 @@
-/*****************************************************************************
-MIT License
-Copyright (c) 2021 byrcoder
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in all
-copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
-SOFTWARE.
-*****************************************************************************/
-
-//
-// Created by byrcoder on 2021/8/23.
-//
-
-#include <sps_sys_st_io_udp.hpp>
-#include <sps_io_socket.hpp>
-#include <sps_log.hpp>
-
-namespace sps {
-
-error_t UdpFd::create_fd(PUdpFd &fd) {
-    st_netfd_t net = nullptr;
-    int sock = socket(AF_INET, SOCK_DGRAM, 0);
-    if (sock < 0) {
-        return ERROR_SOCKET_CREATE;
-    }
-
-    net = st_netfd_open_socket(sock);
-    if (net == nullptr) {
-        ::close(sock);
-        return ERROR_ST_OPEN_SOCKET;
-    }
-
-    fd = std::make_shared<UdpFd>(net);
-    return SUCCESS;
-}
-
-error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
-    error_t ret = create_fd(fd);
-
-    if (ret != SUCCESS) {
-        return ret;
-    }
-
-    int    fileno  = st_netfd_fileno(fd->get_fd());
-    struct sockaddr_in addr;
-
-    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
-        goto failed;
-    }
-
-    if (reuse_port) {
-        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
-            goto failed;
-        }
-    }
-
-    addr.sin_family        =   AF_INET;
-    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    addr.sin_port          =   htons(bind_port);
-
-    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
-        sp_error("bind addr :%d failed, fileno:%d",
-                  bind_port, fileno);
-        ret = ERROR_SOCKET_BIND;
-        goto failed;
-    }
-
-    return ret;
-
-failed:
-    fd.reset();
-    return ret;
-}
-
-UdpFd::UdpFd(st_netfd_t udp_fd) {
-    this->udp_fd = udp_fd;
-}
-
-UdpFd::~UdpFd() {
-    st_tcp_close(udp_fd);
-}
-
-st_netfd_t UdpFd::get_fd() {
-    return udp_fd;
-}
-
-StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
-    rtm    = -1;
-    stm    = -1;
-    rbytes = 0;
-    sbytes = 0;
-
-    this->fd        = std::move(fd);
-    this->peer_port = peer_port;
-    this->peer_ip   = peer_ip;
-    this->connected = false;
-
-    peer_addr.sin_family        =   AF_INET;
-    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
-    peer_addr.sin_port          =   htons(peer_port);
-
-    int opt = 1;
-    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
-}
-
-// reader
-void StUdpClientSocket::set_recv_timeout(utime_t tm) {
-    this->rtm = tm;
-}
-
-utime_t StUdpClientSocket::get_recv_timeout() {
-    return rtm;
-}
-
-error_t StUdpClientSocket::connect() {
-    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
-    if (ret == 0) {
-        connected = true;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
-    int     n   = 0;
-    error_t ret = SUCCESS;
-
-    while (n < size) {
-        size_t nr = 0;
-        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
-            return ret;
-        }
-
-        n += nr;
-    }
-
-    return ret;
-}
-
-error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
-    std::string peer_ip;
-    int         peer_port;
-    return read(buf, size, nread, peer_ip, peer_port);
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
-
-    sp_debug("st_recvfrom ret %d", n);
-
-    if (n <= 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    addr2string(&from_addr, peer_ip, peer_port);
-    nread = n;
-    return SUCCESS;
-}
-
-error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
-                                std::string &peer_ip, int &peer_port,
-                                std::string &dst_ip, int &dst_port) {
-    struct sockaddr_in from_addr;
-    int from_len = sizeof(from_addr);
-
-    struct iovec io;
-    io.iov_base = buf;
-    io.iov_len  = size;
-
-    struct msghdr msg = {
-        .msg_name = &from_addr,
-        .msg_namelen = sizeof(from_addr),
-        .msg_iov = &io,
-        .msg_iovlen = 1,
-        .msg_control = control_buf,
-        .msg_controllen = sizeof(control_buf),
-        .msg_flags = 0
-    };
-
-    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
-
-    if (n < 0) {
-        if (n < 0 && errno == ETIME) {
-            return ERROR_SOCKET_TIMEOUT;
-        }
-
-        if (errno == EINTR) {
-            return ERROR_SOCKET_EINTR;
-        }
-        return ERROR_SOCKET_READ;
-    }
-
-    // iterate through all the control headers
-    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
-        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
-        // ignore the control headers that don't match what we want
-        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
-            continue;
-        }
-        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
-        // at this point, peeraddr is the source sockaddr
-        // pi->ipi_spec_dst is the destination in_addr
-        // pi->ipi_addr is the receiving interface in_addr
-
-        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
-    }
-
-    nread = n;
-    return SUCCESS;
-}
-
-// writer
-void StUdpClientSocket::set_send_timeout(utime_t tm) {
-    this->stm = tm;
-}
-
-utime_t StUdpClientSocket::get_send_timeout() {
-    return stm;
-}
-
-error_t StUdpClientSocket::write(void* buf, size_t size) {
-    int sent = 0;
-
-    while (sent < size) {
-        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
-                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
-
-        if (n < 0) {
-            if (n < 0 && errno == ETIME) {
-                return ERROR_SOCKET_TIMEOUT;
-            }
-
-            if (errno == EINTR) {
-                return ERROR_SOCKET_EINTR;
-            }
-            return ERROR_SOCKET_WRITE;
-        }
-
-        sent += n;
-    }
-
-    return SUCCESS;
-}
-
-UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
-    this->len = len;
-    this->buf = new uint8_t[len];
-    memcpy(this->buf, buf, len);
-}
-
-UdpBuffer::~UdpBuffer() {
-    delete [] buf;
-}
-
-UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
-}
-
-uint8_t * UdpBuffer::buffer() {
-    return buf;
-}
-
-size_t UdpBuffer::size() {
-    return len;
-}
-
-StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
-        StUdpClientSocket(cip, cport, fd) {
-    cond             = IConditionFactory::get_instance().create_condition();
-    buffer_list_size = 0;
-    buffer_max_list_size = 4000;
-}
-
-StUdpSessionClientSocket::~StUdpSessionClientSocket() {
-}
-
-error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
-    if (buffer_lists.empty()) {
-        cond->wait(get_recv_timeout());
-    }
-
-    if (buffer_lists.empty()) {
-        return ERROR_SOCKET_TIMEOUT;
-    }
-
-    auto& b = buffer_lists.front();
-
-    if (size < b->size()) {
-        return ERROR_SOCKET_BUFFER_SMALL;
-    }
-
-    nread = b->size();
-    memcpy(buf, b->buffer(), b->size());
-
-    buffer_lists.erase(buffer_lists.begin());
-    --buffer_list_size;
-
-    return SUCCESS;
-}
-
-error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
-    bool empty = buffer_lists.empty();
-
-    if (buffer_list_size >= buffer_max_list_size) {
-        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
-        return SUCCESS;
-    }
-
-    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
-
-    if (empty) {
-        cond->signal();
-    }
-    ++buffer_list_size;
-
-    return SUCCESS;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
-    this->manager = manger;
-}
-
-UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
-        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
-    this->manager = manager;
-}
-
-UdpSessionSocket::~UdpSessionSocket() {
-    manager->on_destroy(this);
-}
-
-StUdpServerSocket::~StUdpServerSocket() {
-    delete [] buffer;
-}
-
-error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
-    this->ip   = sip;
-    this->port = sport;
-    this->reuse_port = reuse_sport;
-    new_cond         = IConditionFactory::get_instance().create_condition();
-
-    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
-
-    if (ret != SUCCESS) {
-        sp_error("create udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
-
-    delete [] buffer;
-    buffer        = new uint8_t[buffer_size];
-    sp_info("create udp server socket success port %d", sport);
-
-    ret           = ICoFactory::get_instance().start(shared_from_this());
-    if (ret != SUCCESS) {
-        sp_error("start udp server socket failed ret %d", ret);
-        return ret;
-    }
-
-    running       = true;
-    return ret;
-}
-
-PSocket StUdpServerSocket::accept() {
-    while (new_clients.empty()) {
-        new_cond->wait(SLEEP_FOREVER);
-    }
-
-    PSocket c = new_clients.front();
-    new_clients.pop_front();
-    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
-             c->get_self_ip().c_str(), c->get_self_port());
-    return c;
-}
-
-error_t StUdpServerSocket::handler() {
-    while (running) {
-        size_t      nr    = 0;
-        std::string peer_ip;
-        int         peer_port = 0;
-        std::string self_ip;
-        int         self_port = 0;
-        bool        new_client = false;
-
-        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
-        if (ret != SUCCESS){
-            sp_error("fail read ret %d", ret);
-            continue;;
-        }
-
-        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
-        csocket->push(buffer, nr);
-        // new socket
-        if (new_client) {
-            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
-            new_cond->signal();
-        }
-    }
-
-    return SUCCESS;
-}
-
-void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
-    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
-}
-
-std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
-                                            const std::string& dip, int dport) {
-    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
-}
-
-PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
-        std::string& dip, int dport, bool &is_new) {
-    std::string key = generate_key(cip, cport, dip, dport);
-
-    auto it = sessions.find(key);
-    if (it != sessions.end()) {
-        return it->second.lock();
-    }
-
-    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
-    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
-    is_new = true;
-
-    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
-
-    return new_socket;
-}
-
-void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
-    std::string key = generate_key(cip, cport, sip, sport);
-
-    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
-    sessions.erase(key);
-}
-
+/*****************************************************************************
+MIT License
+Copyright (c) 2021 byrcoder
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in all
+copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+SOFTWARE.
+*****************************************************************************/
+
+//
+// Created by byrcoder on 2021/8/23.
+//
+
+#include <sps_sys_st_io_udp.hpp>
+#include <sps_io_socket.hpp>
+#include <sps_log.hpp>
+
+namespace sps {
+
+error_t UdpFd::create_fd(PUdpFd &fd) {
+    st_netfd_t net = nullptr;
+    int sock = socket(AF_INET, SOCK_DGRAM, 0);
+    if (sock < 0) {
+        return ERROR_SOCKET_CREATE;
+    }
+
+    net = st_netfd_open_socket(sock);
+    if (net == nullptr) {
+        ::close(sock);
+        return ERROR_ST_OPEN_SOCKET;
+    }
+
+    fd = std::make_shared<UdpFd>(net);
+    return SUCCESS;
+}
+
+error_t UdpFd::create_fd(int bind_port, PUdpFd &fd, bool reuse_addr, bool reuse_port) {
+    error_t ret = create_fd(fd);
+
+    if (ret != SUCCESS) {
+        return ret;
+    }
+
+    int    fileno  = st_netfd_fileno(fd->get_fd());
+    struct sockaddr_in addr;
+
+    if ((ret = st_tcp_fd_reuseaddr(fileno)) != SUCCESS) {
+        goto failed;
+    }
+
+    if (reuse_port) {
+        if ((ret = st_tcp_fd_reuseport(fileno)) != SUCCESS) {
+            goto failed;
+        }
+    }
+
+    addr.sin_family        =   AF_INET;
+    addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    addr.sin_port          =   htons(bind_port);
+
+    if (::bind(fileno, (struct sockaddr*) &addr, sizeof(addr)) == -1) {
+        sp_error("bind addr :%d failed, fileno:%d",
+                  bind_port, fileno);
+        ret = ERROR_SOCKET_BIND;
+        goto failed;
+    }
+
+    return ret;
+
+failed:
+    fd.reset();
+    return ret;
+}
+
+UdpFd::UdpFd(st_netfd_t udp_fd) {
+    this->udp_fd = udp_fd;
+}
+
+UdpFd::~UdpFd() {
+    st_tcp_close(udp_fd);
+}
+
+st_netfd_t UdpFd::get_fd() {
+    return udp_fd;
+}
+
+StUdpClientSocket::StUdpClientSocket(const std::string& peer_ip, int peer_port, PUdpFd fd) {
+    rtm    = -1;
+    stm    = -1;
+    rbytes = 0;
+    sbytes = 0;
+
+    this->fd        = std::move(fd);
+    this->peer_port = peer_port;
+    this->peer_ip   = peer_ip;
+    this->connected = false;
+
+    peer_addr.sin_family        =   AF_INET;
+    peer_addr.sin_addr.s_addr   =   htonl(INADDR_ANY);
+    peer_addr.sin_port          =   htons(peer_port);
+
+    int opt = 1;
+    setsockopt(st_netfd_fileno(this->fd->get_fd()), IPPROTO_IP, IP_PKTINFO, &opt, sizeof(opt));
+}
+
+// reader
+void StUdpClientSocket::set_recv_timeout(utime_t tm) {
+    this->rtm = tm;
+}
+
+utime_t StUdpClientSocket::get_recv_timeout() {
+    return rtm;
+}
+
+error_t StUdpClientSocket::connect() {
+    error_t  ret = st_connect(fd->get_fd(), reinterpret_cast<const sockaddr *>(&peer_addr), sizeof(peer_addr), 10);
+    if (ret == 0) {
+        connected = true;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
+    int     n   = 0;
+    error_t ret = SUCCESS;
+
+    while (n < size) {
+        size_t nr = 0;
+        if ((ret = read((char*) buf + n, size - n, nr)) != SUCCESS) {
+            return ret;
+        }
+
+        n += nr;
+    }
+
+    if (nread) {
+        *nread = n;
+    }
+
+    return ret;
+}
+
+error_t StUdpClientSocket::read(void* buf, size_t size, size_t& nread) {
+    std::string peer_ip;
+    int         peer_port;
+    return read(buf, size, nread, peer_ip, peer_port);
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    int n = st_recvfrom(fd->get_fd(), buf, size, (struct sockaddr*) &from_addr, &from_len, rtm);
+
+    sp_debug("st_recvfrom ret %d", n);
+
+    if (n <= 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    addr2string(&from_addr, peer_ip, peer_port);
+    nread = n;
+    return SUCCESS;
+}
+
+error_t StUdpClientSocket::read(void *buf, size_t size, size_t &nread,
+                                std::string &peer_ip, int &peer_port,
+                                std::string &dst_ip, int &dst_port) {
+    struct sockaddr_in from_addr;
+    int from_len = sizeof(from_addr);
+
+    struct iovec io;
+    io.iov_base = buf;
+    io.iov_len  = size;
+
+    struct msghdr msg = {
+        .msg_name = &from_addr,
+        .msg_namelen = sizeof(from_addr),
+        .msg_iov = &io,
+        .msg_iovlen = 1,
+        .msg_control = control_buf,
+        .msg_controllen = sizeof(control_buf),
+        .msg_flags = 0
+    };
+
+    int n = st_recvmsg(fd->get_fd(), &msg, 0, rtm);
+
+    if (n < 0) {
+        if (n < 0 && errno == ETIME) {
+            return ERROR_SOCKET_TIMEOUT;
+        }
+
+        if (errno == EINTR) {
+            return ERROR_SOCKET_EINTR;
+        }
+        return ERROR_SOCKET_READ;
+    }
+
+    // iterate through all the control headers
+    for (struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg); cmsg != nullptr;
+        cmsg = CMSG_NXTHDR(&msg, cmsg)) {
+        // ignore the control headers that don't match what we want
+        if (cmsg->cmsg_level != IPPROTO_IP || cmsg->cmsg_type != IP_PKTINFO) {
+            continue;
+        }
+        struct in_pktinfo *pi = (struct in_pktinfo*) CMSG_DATA(cmsg);
+        // at this point, peeraddr is the source sockaddr
+        // pi->ipi_spec_dst is the destination in_addr
+        // pi->ipi_addr is the receiving interface in_addr
+
+        addr2string((struct sockaddr_in *)&pi->ipi_addr, dst_ip, dst_port);
+    }
+
+    nread = n;
+    return SUCCESS;
+}
+
+// writer
+void StUdpClientSocket::set_send_timeout(utime_t tm) {
+    this->stm = tm;
+}
+
+utime_t StUdpClientSocket::get_send_timeout() {
+    return stm;
+}
+
+error_t StUdpClientSocket::write(void* buf, size_t size) {
+    int sent = 0;
+
+    while (sent < size) {
+        int n = st_sendto(fd->get_fd(), (char*) buf + sent, size - sent,
+                          connected ? nullptr : (struct sockaddr *) &peer_addr, sizeof(peer_addr), stm);
+
+        if (n < 0) {
+            if (n < 0 && errno == ETIME) {
+                return ERROR_SOCKET_TIMEOUT;
+            }
+
+            if (errno == EINTR) {
+                return ERROR_SOCKET_EINTR;
+            }
+            return ERROR_SOCKET_WRITE;
+        }
+
+        sent += n;
+    }
+
+    return SUCCESS;
+}
+
+UdpBuffer::UdpBuffer(uint8_t *buf, size_t len) {
+    this->len = len;
+    this->buf = new uint8_t[len];
+    memcpy(this->buf, buf, len);
+}
+
+UdpBuffer::~UdpBuffer() {
+    delete [] buf;
+}
+
+UdpBuffer::UdpBuffer(const UdpBuffer &buffer) {
+}
+
+uint8_t * UdpBuffer::buffer() {
+    return buf;
+}
+
+size_t UdpBuffer::size() {
+    return len;
+}
+
+StUdpSessionClientSocket::StUdpSessionClientSocket(const std::string &cip, int cport, PUdpFd fd) :
+        StUdpClientSocket(cip, cport, fd) {
+    cond             = IConditionFactory::get_instance().create_condition();
+    buffer_list_size = 0;
+    buffer_max_list_size = 4000;
+}
+
+StUdpSessionClientSocket::~StUdpSessionClientSocket() {
+}
+
+error_t StUdpSessionClientSocket::read(void *buf, size_t size, size_t &nread) {
+    if (buffer_lists.empty()) {
+        cond->wait(get_recv_timeout());
+    }
+
+    if (buffer_lists.empty()) {
+        return ERROR_SOCKET_TIMEOUT;
+    }
+
+    auto& b = buffer_lists.front();
+
+    if (size < b->size()) {
+        return ERROR_SOCKET_BUFFER_SMALL;
+    }
+
+    nread = b->size();
+    memcpy(buf, b->buffer(), b->size());
+
+    buffer_lists.erase(buffer_lists.begin());
+    --buffer_list_size;
+
+    return SUCCESS;
+}
+
+error_t StUdpSessionClientSocket::push(uint8_t* buf, size_t len) {
+    bool empty = buffer_lists.empty();
+
+    if (buffer_list_size >= buffer_max_list_size) {
+        sp_warn("too fast udp buffer_list_size %d drop", buffer_list_size);
+        return SUCCESS;
+    }
+
+    buffer_lists.push_back(std::make_shared<UdpBuffer>(buf, len));
+
+    if (empty) {
+        cond->signal();
+    }
+    ++buffer_list_size;
+
+    return SUCCESS;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manger): Socket() {
+    this->manager = manger;
+}
+
+UdpSessionSocket::UdpSessionSocket(IUdpSocketManager* manager, PIReaderWriter rw,
+        const std::string& ip, int p, const std::string& dip, int dp) : Socket(rw, ip, p, dip, dp) {
+    this->manager = manager;
+}
+
+UdpSessionSocket::~UdpSessionSocket() {
+    manager->on_destroy(this);
+}
+
+StUdpServerSocket::~StUdpServerSocket() {
+    delete [] buffer;
+}
+
+error_t StUdpServerSocket::listen(std::string sip, int sport, bool reuse_sport, int /** back_log **/ ) {
+    this->ip   = sip;
+    this->port = sport;
+    this->reuse_port = reuse_sport;
+    new_cond         = IConditionFactory::get_instance().create_condition();
+
+    error_t ret = UdpFd::create_fd(sport, server_fd, reuse_port, reuse_sport);
+
+    if (ret != SUCCESS) {
+        sp_error("create udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    server_socket = std::make_shared<StUdpClientSocket>("", 0, server_fd);
+
+    delete [] buffer;
+    buffer        = new uint8_t[buffer_size];
+    sp_info("create udp server socket success port %d", sport);
+
+    ret           = ICoFactory::get_instance().start(shared_from_this());
+    if (ret != SUCCESS) {
+        sp_error("start udp server socket failed ret %d", ret);
+        return ret;
+    }
+
+    running       = true;
+    return ret;
+}
+
+PSocket StUdpServerSocket::accept() {
+    while (new_clients.empty()) {
+        new_cond->wait(SLEEP_FOREVER);
+    }
+
+    PSocket c = new_clients.front();
+    new_clients.pop_front();
+    sp_trace("accept %s:%d->%s:%d", c->get_peer_ip().c_str(), c->get_peer_port(),
+             c->get_self_ip().c_str(), c->get_self_port());
+    return c;
+}
+
+error_t StUdpServerSocket::handler() {
+    while (running) {
+        size_t      nr    = 0;
+        std::string peer_ip;
+        int         peer_port = 0;
+        std::string self_ip;
+        int         self_port = 0;
+        bool        new_client = false;
+
+        error_t ret = server_socket->read(buffer, buffer_size, nr, peer_ip, peer_port, self_ip, self_port);
+        if (ret != SUCCESS){
+            sp_error("fail read ret %d", ret);
+            continue;;
+        }
+
+        PStUdpSessionClientSocket csocket = search_or_create(peer_ip, peer_port, self_ip, self_port, new_client);
+        csocket->push(buffer, nr);
+        // new socket
+        if (new_client) {
+            new_clients.push_back(std::make_shared<UdpSessionSocket>(this, csocket, peer_ip, peer_port, self_ip, self_port));
+            new_cond->signal();
+        }
+    }
+
+    return SUCCESS;
+}
+
+void StUdpServerSocket::on_destroy(UdpSessionSocket* session) {
+    remove(session->get_peer_ip(), session->get_peer_port(), session->get_self_ip(), session->get_self_port());
+}
+
+std::string StUdpServerSocket::generate_key(const std::string& cip, int cport,
+                                            const std::string& dip, int dport) {
+    return cip + ":" + std::to_string(cport) + "->" + dip + std::to_string(dport);
+}
+
+PStUdpSessionClientSocket StUdpServerSocket::search_or_create(std::string& cip, int cport,
+        std::string& dip, int dport, bool &is_new) {
+    std::string key = generate_key(cip, cport, dip, dport);
+
+    auto it = sessions.find(key);
+    if (it != sessions.end()) {
+        return it->second.lock();
+    }
+
+    auto new_socket = std::make_shared<StUdpSessionClientSocket> (cip, cport, server_fd);
+    sessions[key] = std::weak_ptr<StUdpSessionClientSocket>(new_socket);
+    is_new = true;
+
+    sp_trace("udp client coming %s:%d", cip.c_str(), cport);
+
+    return new_socket;
+}
+
+void StUdpServerSocket::remove(const std::string& cip, int cport, const std::string& sip, int sport) {
+    std::string key = generate_key(cip, cport, sip, sport);
+
+    sp_trace("udp client leaving %s:%d", cip.c_str(), cport);
+    sessions.erase(key);
+}
+
 }
\ No newline at end of file
-- 
2.43.0


From a41d3077d05406d4bb62bd2512639db3443a5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 44/62] fix: the pieces of a full read follow each other

---
 src/sys/st/io/sps_sys_st_io_srt.cpp | 2 +-
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_srt.cpp b/src/sys/st/io/sps_sys_st_io_srt.cpp
index 8f5cdc2..255338d 100644
--- a/src/sys/st/io/sps_sys_st_io_srt.cpp
+++ b/src/sys/st/io/sps_sys_st_io_srt.cpp
@@ -689,7 +689,7 @@ error_t StSrtSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
     int    ret   = SUCCESS;
     while (n < size) {
         size_t nr = 0;
-        ret       = this->read(buf, size-n, nr);
+        ret       = this->read((char*) buf + n, size-n, nr);
         if (ret != SUCCESS) {
             if (nread) {
                 *nread = n;
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index ca44441..891bc2d 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -399,7 +399,7 @@ error_t StSSLSocket::read_fully(void* buf, size_t size, ssize_t* nread) {
 
     while (n < size) {
         size_t len = 0;
-        if ((ret = read(buf, size-n, len)) != SUCCESS) {
+        if ((ret = read((char*) buf + n, size-n, len)) != SUCCESS) {
             break;
         }
 
-- 
2.43.0


From 93570c73f1b6853d4eeb4f0eeb49628b418952b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 45/62] fix: a write to a file that was not made is an error

---
 src/io/url/sps_io_url_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index f137373..c65271c 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -114,7 +114,7 @@ int FileURLProtocol::cur_line_num() {
 
 error_t FileURLProtocol::write(void *buf, size_t size) {
     fh.write((char*) buf, size);
-    if (fh.bad()) {
+    if (fh.fail()) {
         return ERROR_FILE_WRITE;
     }
     return SUCCESS;
-- 
2.43.0


From 9003fa98ca8c29b8e38dcc63fc30b0bc279781da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 46/62] fix: a read that finds the end of a file is not a
 success

---
 src/io/url/sps_io_url_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/url/sps_io_url_file.cpp b/src/io/url/sps_io_url_file.cpp
index c65271c..9012fcd 100644
--- a/src/io/url/sps_io_url_file.cpp
+++ b/src/io/url/sps_io_url_file.cpp
@@ -93,6 +93,9 @@ error_t FileURLProtocol::read(void *buf, size_t size, size_t &nread) {
     fh.read((char*) buf, size);
 
     nread = fh.gcount();
+    if (nread == 0 && size != 0) {
+        return fh.eof() ? ERROR_IO_EOF : ERROR_FILE_READ;
+    }
     return SUCCESS;
 }
 
-- 
2.43.0


From a36a28a3347eeb326ac4697cb2865c64a8c6b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 47/62] fix: what arrives together with the end of a TLS
 handshake is kept

---
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 891bc2d..4256c98 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -182,11 +182,8 @@ error_t StSSLSocket::handshake() {
     uint8_t* data = nullptr;
     int     n = 0;
     if ((n = BIO_get_mem_data(wbio, &data)) > 0) {
-        // OK, reset it for the next read.
+        // it goes out with the next write
         sp_info("remain for wrote n %d", n);
-        if ((n = BIO_reset(rbio)) != 1) {
-            return ERROR_SSL_HANDSHAKE;
-        }
     }
 
     return ret;
@@ -287,10 +284,7 @@ error_t StSSLSocket::handshake_util_write() {
         }
 
         if (BIO_get_mem_data(wbio, &data) > 0) {
-            // OK, reset it for the next read.
-            if ((n = BIO_reset(rbio)) != 1) {
-                return ERROR_SSL_HANDSHAKE;
-            }
+            // what is left in rbio belongs to the next read
             break;
         }
     }
@@ -323,12 +317,6 @@ error_t StSSLSocket::handshake_util_read() {
 
     sp_info("write ssl handshake(%d) %.*s", n, n, data);
 
-    // for next read
-    if ((ssl_err = BIO_reset(rbio)) != 1) {
-        sp_error("fail reset rio mem for %d", ssl_err);
-        return ERROR_SSL_HANDSHAKE;
-    }
-
     if ((tmp_ret = io->write(data, n)) != SUCCESS) {
         sp_error("fail io read ret %d", tmp_ret);
         return tmp_ret;
-- 
2.43.0


From c9ae2353e6fd39e0cc74093e18fca306d6df4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 48/62] fix: a failed accept on a listening socket is not used
 as a connection

---
 src/sys/st/io/sps_sys_st_io_tcp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sys/st/io/sps_sys_st_io_tcp.cpp b/src/sys/st/io/sps_sys_st_io_tcp.cpp
index 9229a2c..23f6925 100644
--- a/src/sys/st/io/sps_sys_st_io_tcp.cpp
+++ b/src/sys/st/io/sps_sys_st_io_tcp.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_sys_st_io_tcp.hpp>
 
 #include <arpa/inet.h>
+#include <errno.h>
 #include <netinet/in.h>
 #include <netdb.h>
 #include <string.h>
@@ -355,6 +356,10 @@ PSocket StTcpServerSocket::accept() {
     memset(buf, 0, sizeof(buf));
     auto cfd = st_tcp_accept(server_fd, (struct sockaddr*) &addr,
                              &len, ST_UTIME_NO_TIMEOUT);
+    if (cfd == nullptr) {
+        sp_error("fail accept on %s:%d, errno %d", ip.c_str(), port, errno);
+        return nullptr;
+    }
 
     std::string cip;
     int         cport = 0;
@@ -363,6 +368,7 @@ PSocket StTcpServerSocket::accept() {
     // discovery client information
     socklen_t len2 = sizeof(addr);
     if (getsockname(st_netfd_fileno(cfd), (sockaddr*) &addr, &len2) == -1) {
+        st_netfd_close(cfd);
         return nullptr;
     }
 
-- 
2.43.0


From ba16ddfde51853e55447cc5f95d647b2c6b8fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 49/62] fix: a failed accept does not crash the acceptors

---
 src/module/server/sps_server.cpp    | 9 +++++++++
 src/sys/st/io/sps_sys_st_io_ssl.cpp | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 062f9a2..0fad53f 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -24,6 +24,7 @@ SOFTWARE.
 #include <sps_server.hpp>
 
 #include <sps_log.hpp>
+#include <sps_sys_sync.hpp>
 #include <sps_sys_st_io_ssl.hpp>
 
 namespace sps {
@@ -82,6 +83,14 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 error_t Server::accept() {
     do {
         auto io = server_socket->accept();
+
+        if (!io) {
+            sp_error("fail accept on %s:%d", listen_ip.c_str(), listen_port);
+            // e.g. no descriptor left: let the others go on and release some
+            SingleInstance<Sleep>::get_instance().usleep(100 * 1000);
+            continue;
+        }
+
         auto h  = factory->create(io);
 
         if (!h) {
diff --git a/src/sys/st/io/sps_sys_st_io_ssl.cpp b/src/sys/st/io/sps_sys_st_io_ssl.cpp
index 4256c98..3f46fc9 100644
--- a/src/sys/st/io/sps_sys_st_io_ssl.cpp
+++ b/src/sys/st/io/sps_sys_st_io_ssl.cpp
@@ -533,6 +533,14 @@ error_t StSSLAcceptor::handler() {
 
     do {
         auto sock = ssl.ssock->accept();
+
+        if (!sock) {
+            sp_error("fail accept");
+            // e.g. no descriptor left: let the others go on and release some
+            st_usleep(100 * 1000);
+            continue;
+        }
+
         auto ssl_sock = std::make_shared<StSSLSocket>(sock, SSL_SERVER, ssl.config, ssl.cert_searcher);
 
         // TODO: fixme with threads startup
-- 
2.43.0


From e1506f1a57d3130bb8756b3830f26bb55e1b3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:26 +0000
Subject: [PATCH 50/62] fix: listening on a transport that is not built in is
 an error, not a crash

---
 src/module/server/sps_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/server/sps_server.cpp b/src/module/server/sps_server.cpp
index 0fad53f..bbc629b 100644
--- a/src/module/server/sps_server.cpp
+++ b/src/module/server/sps_server.cpp
@@ -77,6 +77,11 @@ int Server::listen(std::string ip, int port, bool reuse_port, int backlog,
 
     server_socket = SingleInstance<ServerSocketFactory>::get_instance()
             .create_ss(tran);
+    if (!server_socket) {
+        sp_error("no transport %d for %s:%d", tran, ip.c_str(), port);
+        return ERROR_SOCKET_CREATE;
+    }
+
     return server_socket->listen(ip, port, reuse_port, backlog);
 }
 
-- 
2.43.0


From 33b9994e0d3d8e1d996b6cb200495d32af6a0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 51/62] fix: an upstream without a response does not crash the
 edge

---
 src/module/stream/sps_stream_edge.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/module/stream/sps_stream_edge.cpp b/src/module/stream/sps_stream_edge.cpp
index c7c7b79..5f12c20 100644
--- a/src/module/stream/sps_stream_edge.cpp
+++ b/src/module/stream/sps_stream_edge.cpp
@@ -46,6 +46,7 @@ error_t StreamEdge::handler() {
     error_t ret = SUCCESS;
     auto&   avf = SingleInstance<AVDemuxerFactory>::get_instance();
     auto    io  = SingleInstance<sps::UrlProtocol>::get_instance().create(url);
+    PResponse rsp;
 
     if (!started) {
         sp_error("stopped");
@@ -58,9 +59,10 @@ error_t StreamEdge::handler() {
     }
 
     ret = io->open(url, TCP);
-    if (ret != SUCCESS || !io->response()->success()) {
+    rsp = io->response();  // none for protocols that do not answer, e.g. file
+    if (ret != SUCCESS || (rsp && !rsp->success())) {
         sp_error("Fail Init upstream %s-%s-%s %d %s", url->get_host(), url->get_url(), url->get_params(),
-                 ret, io->response() ? io->response()->error().c_str() : "");
+                 ret, rsp ? rsp->error().c_str() : "");
         goto fail;
     }
 
-- 
2.43.0


From a5f97641fe841e894166a3f5423acfccdff1d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:42 +0000
Subject: [PATCH 52/62] fix: proxying to a protocol without an http response is
 an error, not a crash

---
 src/module/http/sps_http_proxy_phase_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module/http/sps_http_proxy_phase_handler.cpp b/src/module/http/sps_http_proxy_phase_handler.cpp
index d664f35..d450d7a 100644
--- a/src/module/http/sps_http_proxy_phase_handler.cpp
+++ b/src/module/http/sps_http_proxy_phase_handler.cpp
@@ -66,6 +66,11 @@ error_t HttpProxyPhaseHandler::handler(IConnection &c) {
     }
 
     auto http_rsp = std::dynamic_pointer_cast<HttpResponse>(url_protocol->response());
+    if (!http_rsp) {
+        sp_error("no http response from %s", proxy_req->url.c_str());
+        return ERROR_UPSTREAM_NOT_FOUND;
+    }
+
     HttpResponseSocket rsp(sock, ctx.req->ip, ctx.req->port);
     rsp.init(http_rsp->status_code, &http_rsp->headers, http_rsp->content_length, http_rsp->chunked);
 
-- 
2.43.0


From f5e4d56d4c09bcbc3c1795df13e96256c18fd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:59 +0000
Subject: [PATCH 53/62] fix: a packet without a valid time stamp does not end
 the server

---
 src/avformat/sps_avformat_ffmpeg_enc.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/avformat/sps_avformat_ffmpeg_enc.cpp b/src/avformat/sps_avformat_ffmpeg_enc.cpp
index a2f588b..0744e46 100644
--- a/src/avformat/sps_avformat_ffmpeg_enc.cpp
+++ b/src/avformat/sps_avformat_ffmpeg_enc.cpp
@@ -118,8 +118,6 @@ error_t FFmpegAVMuxer::write_packet(PAVPacket& buffer) {
 
         out_pkt.dts = pkt->packet()->dts;
         out_pkt.pts = pkt->packet()->pts;
-
-        exit(0);
     }
 
     ret = av_write_frame(ctx, &out_pkt);
-- 
2.43.0


From 083d06f1b0513d3d23c36284b5fcbdd7d62640af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 54/62] fix: the length of an RTP header extension counts
 32-bit words

---
 src/avformat/sps_avformat_rtp.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..8501470 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,16 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
-        sp_error("fail require rtp header extension length %u",
-                 extension_info.length);
+    // the length counts 32-bit words
+    uint32_t nb_bytes = (uint32_t) extension_info.length * 4;
+
+    if ((ret = bc.acquire(nb_bytes)) != SUCCESS) {
+        sp_error("fail require rtp header extension length %u", nb_bytes);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(nb_bytes);
+    bc.read_bytes(extension_info.header_extension.get(), nb_bytes);
 
     return ret;
 }
-- 
2.43.0


From dc0b0945ebfd9adcd19dd7e764e66cedf9030955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 55/62] fix: all 33 bits of a clock reference are kept

---
 src/avformat/sps_avformat_ts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index ac10e30..e087ac2 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -862,7 +862,8 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
             return ret;
         }
 
-        pcr.program_clock_reference_base = rd.read_bits(33);
+        pcr.program_clock_reference_base = rd.read_bits(1);
+        pcr.program_clock_reference_base = (pcr.program_clock_reference_base << 32) | rd.read_int32();
         pcr.pcr_reserved = rd.read_bits(6);
         pcr.program_clock_reference_extension = rd.read_bits(9);
         pcr_value = pcr.program_clock_reference_base * 300 + pcr.program_clock_reference_extension;
-- 
2.43.0


From 9a0bbdb2c5ad48d12ff7dd9b9d624771b71e11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 56/62] fix: private data of an adaptation field is announced
 by its own flag

---
 src/avformat/sps_avformat_ts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index e087ac2..fd2d196 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -885,7 +885,7 @@ error_t TsAdaptationFiled::decode(BitContext& rd) {
         splice_countdown = rd.read_int8();
     }
 
-    if (flags.adaptation_field_extension_flag) {
+    if (flags.transport_private_data_flag) {
         if ((ret = rd.acquire(1)) != SUCCESS) {
             return ret;
         }
-- 
2.43.0


From 523adf62683efed8fae434bf6823ebbe35eeeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 57/62] fix: a report block of a receiver begins with the
 source it reports on

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 3 ++-
 src/avformat/sps_avformat_rtpdec_rtcp.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index 3f9a733..f90e987 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -52,12 +52,13 @@ std::string IRtcpDecoder::debug() {
 }
 
 error_t RtcpSRReportBlock::decode(BitContext &bc) {
-    error_t ret = bc.acquire(20);
+    error_t ret = bc.acquire(SIZE);
 
     if (ret != SUCCESS) {
         return ret;
     }
 
+    ssrc = bc.read_int32();
     fraction_lost = bc.read_int8();
     cum_number_pkt_lost = bc.read_int24();
     extend_high_seq_num_recv = bc.read_int32();
diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.hpp b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
index 52f2263..1ec72c3 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.hpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.hpp
@@ -53,10 +53,11 @@ typedef std::shared_ptr<IRtcpDecoder> PIRtcpDecoder;
 
 class RtcpSRReportBlock {
  public:
-    static const int SIZE = 20;
+    static const int SIZE = 24;
  public:
     error_t decode(BitContext& bc);
 
+    uint32_t ssrc;
     uint32_t fraction_lost : 8;
     uint32_t cum_number_pkt_lost : 24;  // 24 bit
     uint32_t extend_high_seq_num_recv;
-- 
2.43.0


From 37839bcc0f1d789fc0ba2302795fa3fa01fffdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 58/62] fix: the length of an RTCP packet counts 32-bit words

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index f90e987..fef5416 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -180,13 +180,13 @@ std::string RtcpSDESDecoder::debug() {
 
 error_t RtcpByteDecoder::decode(RtcpHead &h, BitContext &bc) {
     // ssrc + length(1byte) + reason for live
-    error_t ret = bc.acquire(h.length);
+    error_t ret = bc.acquire(h.length * 4);  // counted in 32-bit words
 
     if (ret != SUCCESS) {
         return ret;
     }
 
-    bc.skip_read_bytes(h.length);
+    bc.skip_read_bytes(h.length * 4);
     return ret;
 }
 
@@ -196,13 +196,13 @@ std::string RtcpByteDecoder::debug() {
 
 error_t RtcpAppDecoder::decode(RtcpHead &h, BitContext &bc) {
     // ssrc + name(4byte) + application
-    error_t ret = bc.acquire(h.length);
+    error_t ret = bc.acquire(h.length * 4);  // counted in 32-bit words
 
     if (ret != SUCCESS) {
         return ret;
     }
 
-    bc.skip_read_bytes(h.length);
+    bc.skip_read_bytes(h.length * 4);
     return ret;
 }
 
-- 
2.43.0


From d59c833420ed9a16080e5dbbf40d98be9d83c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 59/62] fix: the units of an aggregation packet are split by
 their 16-bit sizes

---
 .../sps_avformat_rtpdec_h264_hevc.cpp         | 42 +++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 7630b6a..ae47612 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -90,22 +90,28 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
-    if (tp == STAP_B) {
-        if ((ret = bc.acquire(2)) != SUCCESS) {
-            return ret;
-        }
-        bc.skip_read_bytes(2);
+    // header(1) + decoding order number(2) of STAP-B
+    int head = tp == STAP_B ? 3 : 1;
+    if ((ret = bc.acquire(head)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(head);
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
+        auto nalu_size = bc.read_int16();
 
-        if ((ret = bc.acquire(size)) != SUCCESS) {
+        if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
             return ret;
         }
 
+        BitContext nalu(bc.pos(), nalu_size);
+        bc.skip_read_bytes(nalu_size);
+
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        ret = dc.decode(tp, header, nalu, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
@@ -121,21 +127,20 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        if ((ret = bc.acquire(3)) != SUCCESS) {
-            return ret;
-        }
-        bc.skip_read_bytes(3); // donb decoding order number base
+    // header(1) + donb decoding order number base(2)
+    if ((ret = bc.acquire(3)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(3);
 
     while (bc.size() > 0) {
         //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
+        auto nalu_size = bc.read_int16();
         auto nalu_dond = bc.read_int8();
         auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
 
@@ -143,8 +148,11 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
             return ret;
         }
 
+        BitContext nalu(bc.pos(), nalu_size);
+        bc.skip_read_bytes(nalu_size);
+
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        ret = dc.decode(tp, header, nalu, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
-- 
2.43.0


From 27cea0bb763cae34afca25702cd0a8bd8c176e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 60/62] fix: the PCR extension and the section CRC do not fit
 into 8 bits

---
 src/avformat/sps_avformat_ts.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.hpp b/src/avformat/sps_avformat_ts.hpp
index 0165e0a..be6297a 100644
--- a/src/avformat/sps_avformat_ts.hpp
+++ b/src/avformat/sps_avformat_ts.hpp
@@ -168,7 +168,7 @@ class TsPsiProgram : public TsProgram {
      * psi loop
      */
 
-    uint8_t crc_32;  // 4 bit
+    uint32_t crc_32;  // 32 bit
 };
 
 class TsSdtProgram : public TsPsiProgram {
@@ -523,7 +523,7 @@ class TsAdaptationFiled {
     struct {
         uint64_t program_clock_reference_base;  // 33bit
         uint8_t  pcr_reserved;  // 6bit
-        uint8_t program_clock_reference_extension;  // 9bit
+        uint16_t program_clock_reference_extension;  // 9bit
     } pcr;
     uint64_t pcr_value = 0;
 
-- 
2.43.0


From 4f07aa233b0dcea63a0247599793bfe112e945ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 61/62] fix: rate and marker bits of a PES header are taken
 from their own bits

---
 src/avformat/sps_avformat_ts.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/avformat/sps_avformat_ts.cpp b/src/avformat/sps_avformat_ts.cpp
index fd2d196..62f1d67 100644
--- a/src/avformat/sps_avformat_ts.cpp
+++ b/src/avformat/sps_avformat_ts.cpp
@@ -536,17 +536,17 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
             uint8_t u1 = rd.read_int8();
             escr.reserved = (u1 & 0xc0) >> 6;
             escr.escr_base1 = (u1 & 0x38) >> 3;
-            escr.marker_bit1 = (u1 & 0x04) >> 1;
+            escr.marker_bit1 = (u1 & 0x04) >> 2;
             // remain 2bit
 
             uint16_t u2 = rd.read_int16();
             escr.escr_base2 = (((uint32_t) (u1 & 0x03)) << 13) | ((u2 & 0xFFF8) >> 3);
-            escr.marker_bit2 = (u2 & 0x040) >> 1;
+            escr.marker_bit2 = (u2 & 0x04) >> 2;
             // remain 2 bit
 
             uint16_t u3 = rd.read_int16();
             escr.escr_base3 = (((uint32_t) (u2 & 0x03)) << 13) | ((u3 & 0xFFF8) >> 3);
-            escr.marker_bit3 = (u3 & 0x040) >> 1;
+            escr.marker_bit3 = (u3 & 0x04) >> 2;
             // remain 2bit
 
             uint8_t u4 = rd.read_int8();
@@ -561,8 +561,8 @@ error_t TsPesProgram::decode(TsPacket *pkt, BitContext &rd) {
             }
 
             uint32_t u1 = rd.read_int24();
-            es_rate.marker_bit1 = u1 & 0x800000;
-            es_rate.es_rate = u1 & 0x7ffffe;
+            es_rate.marker_bit1 = (u1 & 0x800000) >> 23;
+            es_rate.es_rate = (u1 & 0x7ffffe) >> 1;
             es_rate.mark_bit2 = u1 & 0x01;
         }
 
-- 
2.43.0


From 54ea18bcb453b07feec23e831470107597abb8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:55 +0000
Subject: [PATCH 62/62] fix: parameter sets of a decoder configuration are as
 long as their 16-bit size says

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 53749fb..c9b62b6 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -150,13 +150,13 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
                 sp_error("fail acquire sps size");
                 return ERROR_H264_DECODER;
             }
-            int nalu_size = bc.read_int16() + 2;
+            int nalu_size = bc.read_int16();
             if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
                 sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
                 return ERROR_H264_DECODER;
             }
 
-            if ((ret = decode_data(bc.pos(), nalu_size, ctx)) != SUCCESS) {
+            if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
                 return ret;
             }
             bc.skip_read_bytes(nalu_size);
@@ -172,13 +172,13 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
                 sp_error("fail acquire pps size");
                 return ERROR_H264_DECODER;
             }
-            int nalu_size = bc.read_int16() + 2;
+            int nalu_size = bc.read_int16();
             if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
                 sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
                 return ERROR_H264_DECODER;
             }
 
-            if ((ret = decode_data(bc.pos(), nalu_size, ctx)) != SUCCESS) {
+            if ((ret = ctx->append(bc.pos(), nalu_size)) != SUCCESS) {
                 return ret;
             }
             bc.skip_read_bytes(nalu_size);
-- 
2.43.0

