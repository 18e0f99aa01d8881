PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#define protected public
#include <sps_log.hpp>
%s
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %%s\\n", #x); return 1; } } while (0)
'''
E_, D = 'src/avformat/sps_avformat_flvenc.cpp', 'src/avformat/sps_avformat_flvdec.cpp'
SINK = PRE % '#include <sps_avformat_flvenc.hpp>\n#include <sps_avformat_flvdec.hpp>\n' + '''
struct Sink : public IWriter {
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    std::string got;
    error_t write(void *buf, size_t size) override { got.append((char *) buf, size); return SUCCESS; }
};
static uint32_t num(const std::string &s, size_t at, int n) {
    uint32_t r = 0;
    for (int i = 0; i < n; i++) r = (r << 8) | (uint8_t) s[at + i];
    return r;
}
static PAVPacket packet(AVStreamType st, int flags, size_t n, int64_t dts, int64_t pts) {
    std::vector<uint8_t> d(n, 0x55);
    return AVPacket::create(AV_MESSAGE_DATA, st, AVPacketType{1}, d.data(), (int) n, dts, pts, flags, 7);
}
'''
SEEDS = [
 dict(id='P17-big-picture', prop='P17',
      needs='a picture larger than 64 KiB',
      what='the high byte of the size of the tag is computed from the size of the data alone: close to a multiple of 64 KiB the tag states a wrong size',
      edits=[(E_, '    WRITE_DATA_SIZE(data_size_pos, data_size)\n', '    WRITE_DATA_SIZE(data_size_pos, data_size)\n    *data_size_pos = buffer->size() >> 16;\n')],
      demo=SINK + '''
int main() {
    for (size_t n : {100, 65530, 65532, 65536, 131069}) {
        auto sink = std::make_shared<Sink>();
        FlvAVMuxer m(sink);
        auto p = packet(AV_STREAM_TYPE_VIDEO, 0x17, n, 40, 80);
        CHECK(m.write_packet(p) == SUCCESS);
        CHECK(num(sink->got, 5, 3) == n + 5);
        CHECK(sink->got.size() == 15 + 5 + n);
    }
    return 0;
}
'''),
 dict(id='P17-after-command', prop='P17',
      needs='a command frame followed by another tag',
      what='the size of the previous tag is off by the four bytes that a command frame does not have',
      edits=[(E_, '    previous_size += data_size;\n', '    previous_size += (uint32_t) buffer->size() + (buffer->stream_type == AV_STREAM_TYPE_VIDEO ? 5 : buffer->stream_type == AV_STREAM_TYPE_AUDIO ? 2 : 0);\n')],
      demo=SINK + '''
int main() {
    auto sink = std::make_shared<Sink>();
    FlvAVMuxer m(sink);
    size_t at = 0, last = 0;
    bool first = true;
    for (int flags : {0x17, 0x27, 0x57, 0x27}) {
        auto p = packet(AV_STREAM_TYPE_VIDEO, flags, 100, 40, 80);
        CHECK(m.write_packet(p) == SUCCESS);
        if (!first) CHECK(num(sink->got, at, 4) == last);
        first = false;
        last = sink->got.size() - at - 4;
        CHECK(num(sink->got, at + 5, 3) == last - 11);
        at = sink->got.size();
    }
    return 0;
}
'''),
 dict(id='P17-long-stream', prop='P17',
      needs='a stream that has been running for more than four and a half hours',
      what='the high byte of the time is read into the wrong place: the time jumps back after 2^24 milliseconds',
      edits=[(D, '((uint32_t) rd->read_int8() << 24u)', '((uint32_t) rd->read_int8() << 16u)')],
      demo=SINK + '''
struct Src : public IReader {
    std::string data;
    size_t at = 0;
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void *buf, size_t size, ssize_t *nread) override {
        if (data.size() - at < size) return ERROR_IO_EOF;
        memcpy(buf, data.data() + at, size);
        at += size;
        if (nread) *nread = size;
        return SUCCESS;
    }
    error_t read(void *buf, size_t size, size_t &nread) override {
        if (at >= data.size()) return ERROR_IO_EOF;
        nread = std::min(size, data.size() - at);
        memcpy(buf, data.data() + at, nread);
        at += nread;
        return SUCCESS;
    }
};
int main() {
    for (int64_t dts : {40LL, 0xffffffLL, 0x1000000LL, 0x7f123456LL}) {
        auto sink = std::make_shared<Sink>();
        FlvAVMuxer m(sink);
        auto p = packet(AV_STREAM_TYPE_VIDEO, 0x17, 100, dts, dts + 40);
        CHECK(m.write_packet(p) == SUCCESS);
        auto src = std::make_shared<Src>();
        src->data = sink->got;
        FlvDemuxer d(src);
        PAVPacket q;
        CHECK(d.read_packet(q) == SUCCESS);
        CHECK(q->dts == dts && q->pts == dts + 40);
    }
    return 0;
}
'''),
]
