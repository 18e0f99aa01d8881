PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#define protected public
#include <sps_log.hpp>
%s
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %%s\\n", #x); return 1; } } while (0)
'''
T = 'src/avformat/sps_avformat_ts.cpp'
SEEDS = [
 dict(id='P12-opcr-alone', prop='P12',
      needs='a transport packet whose adaptation field has an original PCR but no PCR, followed by other optional fields',
      what='the six bytes of the OPCR are left unread, so that what follows is taken from the wrong bytes',
      edits=[(T, '''    if (flags.OPCR_flag) {
''', '''    if (flags.OPCR_flag && flags.PCR_flag) {
''')],
      demo=PRE % '#include <sps_avformat_ts.hpp>' + '''
int main() {
    for (int pcr = 0; pcr < 2; pcr++) {
        uint8_t b[64];
        memset(b, 0, sizeof(b));
        int n = 0;
        b[n++] = 20;
        b[n++] = (pcr ? 0x10 : 0) | 0x08 | 0x04;
        if (pcr) n += 6;
        n += 6;
        b[n] = 0x2a;
        TsAdaptationFiled f;
        BitContext rd(b, sizeof(b));
        CHECK(f.decode(rd) == SUCCESS);
        CHECK(f.splice_countdown == 0x2a);
    }
    return 0;
}
'''),
 dict(id='P12-described-program', prop='P12',
      needs='a program map whose program has descriptors',
      what='the descriptors of the program are not taken off the room of the section: the checksum is read as streams of their own',
      edits=[(T, '''            - 4 - pmt_flag.program_info_length - 4;
''', '''            - 4 - 4;
''')],
      demo=PRE % '#include <sps_avformat_ts.hpp>' + '''
int main() {
    for (int info = 0; info <= 10; info += 5) {
        uint8_t b[128];
        memset(b, 0xff, sizeof(b));
        int n = 0;
        b[n++] = 0xe1; b[n++] = 0x00;
        b[n++] = 0xf0; b[n++] = info;
        n += info;
        b[n++] = 0x1b; b[n++] = 0xe1; b[n++] = 0x00; b[n++] = 0xf0; b[n++] = 0;
        TsContext ctx;
        TsPmtProgram pmt(0x1000, &ctx);
        TsPacket pkt(&ctx);
        pmt.flags1.section_length = 5 + n + 4;
        BitContext rd(b, sizeof(b));
        CHECK(pmt.psi_decode(&pkt, rd) == SUCCESS);
        CHECK(pmt.pes_infos.size() == 1);
    }
    return 0;
}
'''),
 dict(id='P12-late-frame', prop='P12',
      needs='a picture whose presentation and decoding times differ in their middle 15 bits',
      what='the decoding time is put together with a part of the presentation time',
      edits=[(T, '''            tmp_dts |= ((uint64_t) dts.dts2) << 15;
''', '''            tmp_dts |= ((uint64_t) pts.pts2) << 15;
''')],
      demo=PRE % '#include <sps_avformat_ts.hpp>' + '''
static void put(uint8_t *b, int mark, uint64_t t) {
    b[0] = (mark << 4) | ((t >> 30) & 7) << 1 | 1;
    b[1] = (t >> 22) & 0xff;
    b[2] = ((t >> 15) & 0x7f) << 1 | 1;
    b[3] = (t >> 7) & 0xff;
    b[4] = (t & 0x7f) << 1 | 1;
}
int main() {
    uint64_t times[][2] = {{0x12345678, 0x12345600}, {0x1ffff8010, 0x1ffff7ff0}, {0x8000, 0x7000}};
    for (auto &t : times) {
        uint8_t b[256];
        memset(b, 0, sizeof(b));
        b[2] = 1; b[3] = 0xe0;
        b[6] = 0x80; b[7] = 0xc0; b[8] = 10;
        put(b + 9, 3, t[0]);
        put(b + 14, 1, t[1]);
        TsContext ctx;
        TsPesProgram pes(0x100, &ctx, TS_STREAM_TYPE_VIDEO_H264, 0x100);
        TsPacket pkt(&ctx);
        pkt.payload_unit_start_indicator = 1;
        pkt.continuity_counter = 0;
        BitContext rd(b, sizeof(b));
        pes.decode(&pkt, rd);
        CHECK(pes.pes_ctx->pts == (int64_t) t[0]);
        CHECK(pes.pes_ctx->dts == (int64_t) t[1]);
    }
    return 0;
}
'''),
 dict(id='P12-mixed-sources', prop='P12',
      needs='an RTP packet with more than seven contributing sources',
      what='the last contributing sources are read as the extension or the payload',
      edits=[('src/avformat/sps_avformat_rtp.cpp', 'for (int i = 0; i < fix_header.cc; ++i) {', 'for (int i = 0; i < (fix_header.cc & 0x07); ++i) {')],
      demo=PRE % '#include <sps_avformat_rtp.hpp>' + '''
int main() {
    for (int cc = 0; cc < 16; cc++) {
        uint8_t b[128];
        memset(b, 0, sizeof(b));
        b[0] = 0x80 | cc; b[1] = 96;
        RtpPayloadHeader h;
        BitContext bc(b, sizeof(b));
        CHECK(h.decode(bc) == SUCCESS);
        CHECK(h.csrc.size() == (size_t) cc);
        CHECK(bc.size() == sizeof(b) - 12 - 4 * cc);
    }
    return 0;
}
'''),
]
