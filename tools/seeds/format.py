PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#define private public
#include <sps_log.hpp>
#include <sps_host_router_handler.hpp>
#include <sps_avformat_rtpdec_rtcp.hpp>
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
'''
SEEDS = [
 dict(id='P14-host-in-format', prop='P14',
      needs='a request for an unknown host whose name contains conversion characters',
      what='the requested host name becomes part of the format of a log line',
      edits=[('src/module/host/sps_host_router_handler.cpp',
              '    if (!ctx.host) {\n        sp_error("Not found host:%s", ctx.req->host.c_str());\n',
              '    if (!ctx.host) {\n        std::string why = "Not found host:" + ctx.req->host + "\\r\\n";\n        sps::log->printf(sps::LOG_LEVEL::ERROR, why.c_str());\n')],
      demo=PRE + '''
class Rec : public ILog {
 public:
    std::string formats;
    void printf(LOG_LEVEL lev, const char* fmt, ...) override { formats += fmt; }
};
int main() {
    Rec rec;
    sps::log = &rec;
    auto req = std::make_shared<RequestUrl>();
    req->host = "%n%p.evil.example";
    IConnection c(nullptr);
    c.set_context(std::make_shared<HostContext>(req));
    HostRouterPhaseHandler h(std::make_shared<HostModulesRouter>(), nullptr, nullptr);
    CHECK(h.handler(c) != SUCCESS);
    // what a peer sent may be an argument of a log line, never (part of) its format
    CHECK(rec.formats.find("evil.example") == std::string::npos);
    return 0;
}
'''),
 dict(id='P14-report-too-long', prop='P14',
      needs='a receiver report that carries many report blocks',
      what='the text of a receiver report uses the length the formatter wished for, beyond its buffer',
      edits=[('src/avformat/sps_avformat_rtpdec_rtcp.cpp',
              '    int n = snprintf(buf, sizeof(buf), " ssrc %x",\n                     ssrc);\n    return std::string(buf, n);',
              '    std::string ids;\n    for (auto& rb : report_blocks) {\n        ids += " " + std::to_string(rb.last_sr);\n    }\n\n'
              '    int n = snprintf(buf, sizeof(buf), " ssrc %x, from%s",\n                     ssrc, ids.c_str());\n    return std::string(buf, n);')],
      demo=PRE + '''
int main() {
    RtcpRRDecoder d;
    d.ssrc = 0x12345678;
    for (int i = 0; i < 31; ++i) {
        RtcpSRReportBlock rb;
        rb.last_sr = 4000000000u + i;
        d.report_blocks.push_back(rb);
        std::string s = d.debug();
        CHECK(s.size() < 128);
        CHECK(s.find('\\0') == std::string::npos);
    }
    return 0;
}
'''),
]
