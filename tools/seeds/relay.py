HDR = '''
#include <functional>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <cstdio>
#include <cstring>
#define private public
#include <sps_stream.hpp>
#include <sps_stream_cache.hpp>
#include <sps_stream_handler.hpp>
#include <sps_avformat_cache.hpp>
#include <cstdio>
#include <cstring>
#include <functional>
extern "C" {
#include <public.h>
}
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
static PAVPacket pkt(AVStreamType st, int pt, int flags, int64_t dts) {
    uint8_t d[4] = {1, 2, 3, (uint8_t) dts};
    AVPacketType t; t.pkt_type = pt;
    return AVPacket::create(AV_MESSAGE_DATA, st, t, d, 4, dts, dts, flags);
}
static PAVPacket video(int flags, int64_t n) { return pkt(AV_STREAM_TYPE_VIDEO, AV_VIDEO_TYPE_DATA, flags, n); }
static std::string dts(std::list<PAVPacket>& l) {
    std::string v;
    for (auto& p : l) v += std::to_string(p->dts) + " ";
    return v;
}
static std::string taken(PAVDumpCacheStream c) { std::list<PAVPacket> l; if (c->size()) c->dump(l, true); return dts(l); }
'''
SEEDS = [
 dict(id='P08-skip-after-expired', prop='P08',
      needs='a viewer object that disappears without unsubscribing while later viewers stay subscribed, then one packet',
      what='after removing an expired subscriber the walk skips the next live one: that viewer misses the packet',
      edits=[('src/sys/sps_sys_sync.hpp', '                subs.erase(it++);\n', '                it = subs.erase(it);\n                if (it != subs.end()) ++it;\n')],
      demo=HDR + '''
int main() {
    st_init();
    auto src = std::make_shared<AVGopCacheStream>();
    for (int gone = 0; gone < 4; ++gone) {
        std::vector<PAVDumpCacheStream> v;
        for (int i = 0; i < 4; ++i) { v.push_back(std::make_shared<AVDumpCacheStream>(1000)); src->sub(v[i]); }
        v[gone].reset();
        src->put(video(0x17, 1));
        src->put(video(0x27, 2));
        for (auto& c : v) if (c) CHECK(taken(c) == "1 2 ");
        for (auto& c : v) if (c) src->cancel(c);
    }
    return 0;
}
'''),
 dict(id='P08-stop-drops-last', prop='P08',
      needs='the source is stopped while its reader is suspended inside a read that then succeeds',
      what='the packet whose read was in progress when the source is stopped is lost',
      edits=[('src/module/stream/sps_stream.cpp', '        // packet->debug();\n', '        if (!running) {\n            break;\n        }\n\n        // packet->debug();\n')],
      demo=HDR + '''
struct Dem : IAVDemuxer {
    int n = 0; std::function<void()> hook;
    error_t read_header(PAVPacket&) override { return SUCCESS; }
    error_t read_tail(PAVPacket&) override { return SUCCESS; }
    error_t probe(PAVPacket&) override { return SUCCESS; }
    error_t read_packet(PAVPacket& p) override {
        if (n == 4) return -1;
        p = video(n == 0 ? 0x17 : 0x27, n); ++n;
        if (n == 3) hook();          // stopped while this read is in progress
        return SUCCESS;
    }
};
int main() {
    st_init();
    auto dem = std::make_shared<Dem>();
    auto cache = StreamCache::create_av_streamcache("s");
    auto viewer = StreamCache::get_client_streamcache("s", 1000);
    StreamDecoder d(dem, cache);
    dem->hook = [&] { d.stop(); };
    d.decode();
    CHECK(taken(viewer) == "0 1 2 ");
    return 0;
}
'''),
 dict(id='P08-lost-while-sending', prop='P08',
      needs='a packet published between two sends of the same batch, i.e. while the viewer is suspended in a slow write',
      what='the viewer empties its queue after sending the batch instead of when taking it: packets published meanwhile are lost',
      edits=[('src/module/stream/sps_stream.cpp', '''        int n = cache->dump(vpb, false);

        if (n == 0) {
            ret''', '''        int n = cache->dump(vpb, false);
        bool more = true;

        if (n == 0) {
            ret'''),
             ('src/module/stream/sps_stream.cpp', '''            sp_debug("write packet!");
        }
''', '''            sp_debug("write packet!");
        }

        // the batch is gone: drop what is left of it
        std::list<PAVPacket> rest;
        if (more && cache->size() > 0) {
            cache->dump(rest, true);
        }
''')],
      demo=HDR + '''
struct Mux : IAVMuxer {
    std::string out; std::function<void(int)> hook; int n = 0;
    error_t write_header(PAVPacket&) override { return SUCCESS; }
    error_t write_tail(PAVPacket&) override { return SUCCESS; }
    error_t write_packet(PAVPacket& p) override { out += std::to_string(p->dts) + " "; hook(++n); return n >= 5 ? -1 : SUCCESS; }
};
int main() {
    st_init();
    auto cache = StreamCache::create_av_streamcache("s");
    auto viewer = StreamCache::get_client_streamcache("s", 1000);
    cache->put(video(0x17, 0)); cache->put(video(0x27, 1));
    auto mux = std::make_shared<Mux>();
    // packets 2.. are published while the viewer is busy writing
    mux->hook = [&](int n) { cache->put(video(0x27, n + 1)); };
    StreamEncoder e(mux, viewer);
    e.encode();
    CHECK(mux->out == "0 1 2 3 4 ");
    return 0;
}
'''),
 dict(id='P07-first-header-kept', prop='P07',
      needs='a source that changes its codec configuration in mid stream, then a viewer that joins',
      what='the cache keeps the first video header instead of the newest one',
      edits=[('src/avformat/sps_avformat_cache.cpp', '        video_sequence_header = pb;\n', '        if (!video_sequence_header || pbs.empty()) {\n            video_sequence_header = pb;\n        }\n')],
      demo=HDR + '''
int main() {
    st_init();
    auto c = StreamCache::create_av_streamcache("s");
    c->put(pkt(AV_STREAM_TYPE_VIDEO, AV_VIDEO_TYPE_SEQUENCE_HEADER, 0x17, 1));
    c->put(video(0x17, 2)); c->put(video(0x27, 3));
    c->put(pkt(AV_STREAM_TYPE_VIDEO, AV_VIDEO_TYPE_SEQUENCE_HEADER, 0x17, 4));
    c->put(video(0x17, 5));
    CHECK(taken(StreamCache::get_client_streamcache("s", 1000)) == "4 5 ");
    return 0;
}
'''),
 dict(id='P07-disposable-is-key', prop='P07',
      needs='video frames of type 3 (disposable inter frame) in the stream',
      what='a disposable inter frame is taken for a key frame and empties the picture group',
      edits=[('src/avformat/sps_avformat_packet.cpp', 'return ((flags >> 4) & 0x0F) == 1;', 'return ((flags >> 4) & 0x01) == 1;')],
      demo=HDR + '''
int main() {
    st_init();
    auto c = StreamCache::create_av_streamcache("s");
    c->put(video(0x17, 1)); c->put(video(0x37, 2)); c->put(video(0x27, 3));
    CHECK(taken(StreamCache::get_client_streamcache("s", 1000)) == "1 2 3 ");
    return 0;
}
'''),
]
SRV = HDR + '''
#include <sps_host_module.hpp>
#include <sps_avformat_dec.hpp>
#include <sps_avformat_enc.hpp>
struct Dem : IAVDemuxer {
    static std::function<error_t(PAVPacket&)> rd; static error_t head;
    error_t read_header(PAVPacket&) override { return head; }
    error_t read_tail(PAVPacket&) override { return SUCCESS; }
    error_t probe(PAVPacket&) override { return SUCCESS; }
    error_t read_packet(PAVPacket& p) override { return rd(p); }
};
std::function<error_t(PAVPacket&)> Dem::rd; error_t Dem::head = SUCCESS;
struct Mux : IAVMuxer {
    static std::function<error_t(PAVPacket&)> wr; static error_t head;
    error_t write_header(PAVPacket&) override { return head; }
    error_t write_tail(PAVPacket&) override { return SUCCESS; }
    error_t write_packet(PAVPacket& p) override { return wr(p); }
};
std::function<error_t(PAVPacket&)> Mux::wr; error_t Mux::head = SUCCESS;
struct InF : IAVInputFormat {
    InF() : IAVInputFormat("t", "flv") {}
    PIAVDemuxer _create(PIReader) override { return std::make_shared<Dem>(); }
};
struct OutF : IAVOutputFormat {
    OutF() : IAVOutputFormat("t", "flv") {}
    PIAVMuxer _create(PIWriter) const override { return std::make_shared<Mux>(); }
};
static PHostModule mkhost(const char* role, const char* fmt) {
    auto h = std::make_shared<HostModule>("host", "h", nullptr);
    auto c = std::make_shared<HostConfCtx>();
    c->enabled = 1; c->role = role; c->edge_avformat = fmt; c->type = "stream";
    h->conf = c;
    return h;
}
static error_t run(bool pub, PHostModule h, const char* url) {
    auto req = std::make_shared<RequestUrl>();
    req->parse_url(url);
    auto ctx = std::make_shared<HostContext>(req);
    ctx->host = h;
    IConnection c(nullptr);
    c.set_context(ctx);
    StreamHandler s(nullptr, pub);
    return s.handler(c);
}
static void init() {
    st_init();
    SingleInstance<AVDemuxerFactory>::get_instance().reg(std::make_shared<InF>());
    SingleInstance<AVEncoderFactory>::get_instance().reg(std::make_shared<OutF>());
}
#define KEY "h/app/s"
'''
SEEDS += [
 dict(id='P05-bad-header-keeps-name', prop='P05',
      needs='a publisher whose input is refused while its header is being read, then a second publisher of the name',
      what='the registration is not given back when the source fails before its first packet',
      edits=[('src/module/stream/sps_stream_handler.cpp', '''    error_t ret = stream_decode.decode();
    StreamCache::release''', '''    error_t ret = stream_decode.decode();
    if (cache->empty() && ret != SUCCESS) {
        sp_error("Fail publish, nothing received %d", ret);
        return ret;
    }
    StreamCache::release''')],
      demo=SRV + '''
int main() {
    init();
    Dem::head = -7;
    CHECK(run(true, mkhost("source", "all"), "http://h/app/s.flv") == -7);
    CHECK(!StreamCache::get_streamcache(KEY));
    return 0;
}
'''),
 dict(id='P06-timeout-stays', prop='P06',
      needs='a viewer that ends by a time-out rather than by a failed send',
      what='the viewer is not unsubscribed when playing ends by a time-out',
      edits=[('src/module/stream/sps_stream_handler.cpp', '''    ret = stream_encoder.encode();
    cache->cancel(cc);
''', '''    ret = stream_encoder.encode();
    if (ret == ERROR_SOCKET_TIMEOUT) {
        sp_error("viewer of %s timed out", url.c_str());
        return ret;
    }
    cache->cancel(cc);
''')],
      demo=SRV + '''
int main() {
    init();
    auto cache = StreamCache::create_av_streamcache(KEY);
    cache->put(video(0x17, 1));
    int calls = 0;
    Mux::wr = [&](PAVPacket& p) -> error_t { ++calls; return ERROR_SOCKET_TIMEOUT; };
    run(false, mkhost("source", "all"), "http://h/app/s.flv");
    CHECK(calls == 1);
    CHECK(static_cast<Publisher<PAVPacket>*>(cache.get())->subs.empty());
    return 0;
}
'''),
 dict(id='P04-check-too-early', prop='P04',
      needs='two publishers of one name, the second arriving while the first one is still setting up its reader',
      what='the name is looked up before the set-up that may suspend, and registered after it',
      edits=[('src/module/stream/sps_stream_handler.cpp', '''    auto& decoder = SingleInstance<AVDemuxerFactory>::get_instance();
    auto  dec     = decoder.create(io, ctx.req);

    if (!dec) {
        sp_error("Fail found decoder %s-%s", ctx.req->get_host(), ctx.req->get_url());
        return ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
    }

    std::string url    =  get_cache_key(ctx.req);
    auto cache         =  StreamCache::get_streamcache(url);

    if (cache) {
        sp_trace("Fail Publish twice %s-%s", ctx.req->get_host(), ctx.req->get_url());
        return ERROR_HTTP_HAS_SOURCE;
    }

    cache = StreamCache::create_av_streamcache(url);
    sp_trace("OK Publish %s-%s, %s",
             ctx.req->get_host(), ctx.req->get_url(), dec->fmt->name);

    StreamDecoder stream_decode(dec, cache);
    error_t ret = stream_decode.decode();
''', '''    std::string url    =  get_cache_key(ctx.req);
    auto cache         =  StreamCache::get_streamcache(url);

    if (cache) {
        sp_trace("Fail Publish twice %s-%s", ctx.req->get_host(), ctx.req->get_url());
        return ERROR_HTTP_HAS_SOURCE;
    }

    auto& decoder = SingleInstance<AVDemuxerFactory>::get_instance();
    auto  dec     = decoder.create(io, ctx.req);

    if (!dec) {
        sp_error("Fail found decoder %s-%s", ctx.req->get_host(), ctx.req->get_url());
        return ERROR_AVFORMAT_DEMUX_NOT_EXISTS;
    }

    // let the peer know before anything is read
    Sleep::get_instance().usleep(0);

    cache = StreamCache::create_av_streamcache(url);
    sp_trace("OK Publish %s-%s, %s",
             ctx.req->get_host(), ctx.req->get_url(), dec->fmt->name);

    StreamDecoder stream_decode(dec, cache);
    error_t ret = stream_decode.decode();
''')],
      demo=SRV + '''
static error_t second = 12345;
static void* other(void*) { second = run(true, mkhost("source", "all"), "http://h/app/s.flv"); return nullptr; }
int main() {
    init();
    Dem::rd = [](PAVPacket& p) -> error_t { st_usleep(20000); return -3; };
    st_thread_t t = st_thread_create(other, nullptr, 1, 1 << 18);
    error_t first = run(true, mkhost("source", "all"), "http://h/app/s.flv");
    st_thread_join(t, nullptr);
    // exactly one of the two was admitted
    CHECK(first == -3);
    CHECK(second == ERROR_HTTP_HAS_SOURCE);
    return 0;
}
'''),
]
