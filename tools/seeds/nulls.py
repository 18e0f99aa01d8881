PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#define protected public
#include <sps_log.hpp>
%s
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %%s\\n", #x); return 1; } } while (0)
'''
SEEDS = [
 dict(id='P13-warned-pid', prop='P13',
      needs='a second packet of a transport stream with the same unknown packet identifier',
      what='the packet of the unknown program is decoded by a program that is not there',
      edits=[('src/avformat/sps_avformat_ts.cpp', '''    if (!program) {
        sp_warn("ignore pid %d unknown type", pkt.pid);''', '''    static std::map<int, int> warned;  // once per pid
    if (!program && warned[pkt.pid]++ == 0) {
        sp_warn("ignore pid %d unknown type", pkt.pid);''')],
      demo=PRE % '#include <sps_avformat_ts.hpp>' + '''
int main() {
    TsContext ctx;
    for (int i = 0; i < 4; i++) {
        uint8_t p[188];
        memset(p, 0xff, sizeof(p));
        p[0] = 0x47; p[1] = 0x41; p[2] = 0x23; p[3] = 0x10 | i;
        CHECK(ctx.decode(p, sizeof(p)) == SUCCESS);
    }
    return 0;
}
'''),
 dict(id='P13-reserved-nalu', prop='P13',
      needs='an RTP payload with a reserved type',
      what='the payload is decoded by a decoder that is not there',
      edits=[('src/avformat/sps_avformat_rtpdec_h264_hevc.cpp', '''    if (!dc) {''', '''    if (!dc && nalu_type <= FU_B) {''')],
      demo=PRE % '#include <sps_avformat_rtpdec_h264_hevc.hpp>' + '''
int main() {
    uint8_t b[64];
    memset(b, 0x5a, sizeof(b));
    std::list<PAVPacket> pkts;
    for (int t = 0; t < 32; t++) {
        if (t > 0 && t < 30) continue;
        H264RtpDecoder d;
        RtpPayloadHeader h;
        b[0] = t;
        BitContext bc(b, sizeof(b));
        CHECK(d.decode(h, bc, pkts) != SUCCESS);
    }
    return 0;
}
'''),
 dict(id='P13-search-default', prop='P13',
      needs='a TLS client that names a host for which nothing is configured, with no default host',
      what='the certificate of a host block that is not there is looked up',
      edits=[('src/module/host/sps_host_module.cpp', '''    if (!host) {
        sp_warn("ssl not found %s", server_name.c_str());
        return ERROR_SSL_CERT_NOT_FOUND;
    }

    config''', '''    if (!host && server_name.empty()) {
        sp_warn("ssl not found %s", server_name.c_str());
        return ERROR_SSL_CERT_NOT_FOUND;
    }

    config''')],
      demo=PRE % '#include <sps_host_module.hpp>' + '''
int main() {
    HostModulesRouter r;
    SSLConfig c;
    CHECK(r.search("", c) == ERROR_SSL_CERT_NOT_FOUND);
    CHECK(r.search("nobody.example.com", c) == ERROR_SSL_CERT_NOT_FOUND);
    return 0;
}
'''),
]
