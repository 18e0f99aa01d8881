PRE = '''
#include <functional>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <sys/socket.h>
#define private public
#include <sps_sys_st_io_tcp.hpp>
#include <sps_avformat_rtpdec.hpp>
#include <sps_avformat_rtpdec_aac.hpp>
#include <sps_module.hpp>
#include <sps_io_memory.hpp>
extern "C" {
#include <public.h>
}
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
'''
SEEDS = [
 dict(id='P02-short-read-is-success', prop='P02',
      needs='a peer that closes its connection in the middle of a message that is read as a whole',
      what='a read of a whole message that got only part of it is reported as success',
      edits=[('src/sys/st/io/sps_sys_st_io_tcp.cpp', '    if (n != (ssize_t)size) {', '    if (n <= 0) {')],
      demo=PRE + '''
int main() {
    st_init();
    int sv[2];
    CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0);
    StTcpSocket s(st_netfd_open_socket(sv[0]));
    s.set_recv_timeout(1000 * 1000);
    CHECK(write(sv[1], "12345678", 8) == 8);
    char b[16];
    CHECK(s.read_fully(b, 5, nullptr) == SUCCESS);
    close(sv[1]);
    CHECK(s.read_fully(b, 8, nullptr) != SUCCESS);
    CHECK(s.read_fully(b, 8, nullptr) != SUCCESS);
    return 0;
}
'''),
 dict(id='P02-aac-tail-lost', prop='P02',
      needs='an AAC RTP packet whose second access unit is announced longer than the packet, after a good first one',
      what='the truncated access unit is dropped and the packet is reported as decoded',
      edits=[('src/avformat/sps_avformat_rtpdec_aac.cpp', '''            sp_error("[rtp@aac] fail acquire %u, ret %d", au.au_size, ret);
            return ret;''', '''            sp_error("[rtp@aac] fail acquire %u, ret %d", au.au_size, ret);
            return pkts.empty() ? ret : SUCCESS;''')],
      demo=PRE + '''
int main() {
    st_init();
    for (int second = 2; second <= 200; second += 198) {
        uint8_t d[32] = {0, 32, 0, (2 << 3), (uint8_t) ((second << 3) >> 8), (uint8_t) (second << 3), 1, 2, 3, 4};
        BitContext bc(d, 10);
        AacRtpDecoder dec;
        RtpPayloadHeader h;
        std::list<PAVPacket> pkts;
        error_t ret = dec.decode(h, bc, pkts);
        CHECK((ret == SUCCESS) == (second == 2));
    }
    return 0;
}
'''),
]
