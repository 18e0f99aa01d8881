PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#define protected public
#include <sps_log.hpp>
%s
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %%s\\n", #x); return 1; } } while (0)
'''
H = 'src/avcodec/sps_avcodec_h264_parser.cpp'
SEEDS = [
 dict(id='P12-many-sets', prop='P12',
      needs='a decoder configuration with more than 15 sequence parameter sets',
      what='the number of sequence parameter sets is masked to four bits instead of five: what follows the sets that are left out is taken for the picture parameter sets',
      edits=[(H, '        bc.read_bits(3);\n\n        int sps_num = bc.read_bits(5);\n', '        int sps_num = bc.read_int8() & 0x0f;\n')],
      demo=PRE % '#include <sps_avcodec_h264_parser.hpp>\n' + """
int main() {
    for (int sps : {0, 1, 3, 15, 16, 17, 31}) {
        std::vector<uint8_t> b = {1, 0x64, 0, 0x1f, 0xff, (uint8_t) (0xe0 | sps)};
        for (int i = 0; i < sps; i++) for (int c : {0, 3, 0x67, i, 0x55}) b.push_back((uint8_t) c);
        b.push_back(1);
        for (int c : {0, 2, 0x68, 0x44}) b.push_back((uint8_t) c);
        NALUParser p;
        NALUContext ctx;
        CHECK(p.decode(b.data(), b.size(), &ctx, true) == SUCCESS);
        CHECK(ctx.nalu_list.size() == (size_t) sps + 1);
        for (int i = 0; i < sps; i++) CHECK((int) ctx.nalu_list[i].nal_header.nal_unit_type == 7);
        CHECK((int) ctx.nalu_list[sps].nal_header.nal_unit_type == 8);
    }
    return 0;
}
"""),
]
