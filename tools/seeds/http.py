PRE = '''
#include <functional>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#define protected public
#include <sps_http_socket.hpp>
#include <sps_http_parser.hpp>
#include <sps_server_handler.hpp>
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
// a peer: what it sent before, and what it was sent
struct Peer : public IReaderWriter {
    explicit Peer(const std::string& i = "") : in(i) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
    error_t read_fully(void* b, size_t n, ssize_t* nr) override {
        if (in.size() < n) return ERROR_SOCKET_TIMEOUT;
        memcpy(b, in.data(), n); in.erase(0, n);
        if (nr) *nr = n;
        return SUCCESS;
    }
    error_t read(void* b, size_t n, size_t& nr) override {
        nr = std::min(n, in.size());
        if (!nr) return ERROR_SOCKET_TIMEOUT;
        memcpy(b, in.data(), nr); in.erase(0, nr);
        return SUCCESS;
    }
    error_t write(void* b, size_t n) override { out.append((char*) b, n); return SUCCESS; }
    std::string in, out;
};
static error_t all(HttpRequestSocket& s, size_t piece, std::string& got) {
    std::vector<char> b(piece);
    error_t ret;
    size_t nr = 0;
    for (int i = 0; i < 1000; ++i) {
        if ((ret = s.read(b.data(), piece, nr)) != SUCCESS) return ret;
        got.append(b.data(), nr);
    }
    return SUCCESS;
}
'''
S = 'src/module/http/sps_http_socket.cpp'
P = 'src/module/http/sps_http_parser.cpp'
SEEDS = [
 dict(id='P10-chunk-rest', prop='P10',
      needs='a chunk that is read in more than one piece, with more data behind it',
      what='the rest of a chunk is read with the size of the whole chunk: the bytes behind it are taken for data',
      edits=[(S, 'size         = std::min(nb_chunked_left, size);', 'size         = std::min(nb_chunked_size, size);')],
      demo=PRE + '''
int main() {
    auto p = std::make_shared<Peer>("a\\r\\n0123456789\\r\\n3\\r\\nabc\\r\\n0\\r\\n\\r\\nGET / HTTP/1.1\\r\\n");
    HttpRequestSocket s(p, "", 0, true, -1);
    std::string got;
    CHECK(all(s, 4, got) == ERROR_HTTP_RES_EOF);
    CHECK(got == "0123456789abc");
    CHECK(p->in == "GET / HTTP/1.1\\r\\n");
    return 0;
}
'''),
 dict(id='P10-last-piece', prop='P10',
      needs='a body with a length whose last piece is shorter than asked for, and a peer that goes on sending',
      what='the body is taken as ended when the rest was asked for, not when it was read: the remainder is left for the next request',
      edits=[(S, '            is_eof = nread >= content_length;', '            is_eof = nread + (size - nr) >= content_length;')],
      demo=PRE + '''
struct Slow : public Peer {
    using Peer::Peer;
    error_t read(void* b, size_t n, size_t& nr) override { return Peer::read(b, n < 3 ? n : 3, nr); }
};
int main() {
    auto p = std::make_shared<Slow>("0123456789GET");
    HttpRequestSocket s(p, "", 0, false, 10);
    std::string got;
    CHECK(all(s, 64, got) == ERROR_HTTP_RES_EOF);
    CHECK(got == "0123456789");
    CHECK(p->in == "GET");
    return 0;
}
'''),
 dict(id='P10-reads-past-header', prop='P10',
      needs='a header of such a length that a read ends on the CR of its last line',
      what='one byte too many is read when a CR is followed by the empty line: the first byte behind the header is lost',
      edits=[(P, "            if (*(p-1) == '\\n' && *(p-2) == '\\r') {\n                state = 1;\n            } else {\n                state = 3;",
                 "            if (*(p-1) == '\\n') {\n                state = 1;\n            } else {\n                state = 4;")],
      demo=PRE + '''
int main() {
    for (int n = 0; n < 64; ++n) {
        auto p = std::make_shared<Peer>("GET /" + std::string(n % 8, 'x') + " HTTP/1.1\\r\\nHost: a" + std::string(n / 8, 'b')
                                        + "\\r\\n\\r\\n0123456789");
        HttpParser parser;
        CHECK(parser.parse_header(p, HttpType::REQUEST) > 0);
        CHECK(p->in == "0123456789");
    }
    return 0;
}
'''),
 dict(id='P11-chunk-size-decimal', prop='P11',
      needs='a chunked response with a piece of 10 bytes or more',
      what='the size of a chunk is written in decimal',
      edits=[(S, 'ss << std::hex << size << "\\r\\n";', 'ss << size << std::hex << "\\r\\n";')],
      demo=PRE + '''
int main() {
    auto p = std::make_shared<Peer>();
    HttpResponseSocket r(p, "", 0);
    r.init(200, nullptr, -1, true);
    CHECK(r.write((void*) "12345", 5) == SUCCESS);
    CHECK(r.write((void*) "0123456789abcdefXYZ", 19) == SUCCESS);
    CHECK(r.write((void*) "", 0) == SUCCESS);
    auto i = p->out.find("\\r\\n\\r\\n");
    CHECK(i != std::string::npos);
    CHECK(p->out.substr(i + 4) == "5\\r\\n12345\\r\\n13\\r\\n0123456789abcdefXYZ\\r\\n0\\r\\n\\r\\n");
    return 0;
}
'''),
 dict(id='P11-last-chunk-open', prop='P11',
      needs='the chunk of size 0 at the end of a chunked response',
      what='the last chunk lacks its CR LF: the client waits for the end of the body',
      edits=[(S, '    if (chunked) {\n        if ((ret = Socket::write((void*) "\\r\\n",', '    if (chunked && size > 0) {\n        if ((ret = Socket::write((void*) "\\r\\n",')],
      demo=PRE + '''
int main() {
    auto p = std::make_shared<Peer>();
    HttpResponseSocket r(p, "", 0);
    r.init(200, nullptr, -1, true);
    CHECK(r.write((void*) "12345", 5) == SUCCESS);
    CHECK(r.write((void*) "", 0) == SUCCESS);
    auto i = p->out.find("\\r\\n\\r\\n");
    CHECK(i != std::string::npos);
    CHECK(p->out.substr(i + 4) == "5\\r\\n12345\\r\\n0\\r\\n\\r\\n");
    return 0;
}
'''),
 dict(id='P11-served-goes-on', prop='P11',
      needs='a handler that is not the last one and has served the request',
      what='a request that was served is handed to the next handler, which answers it once more',
      edits=[('src/module/server/sps_server_handler.cpp', '            sp_debug("success %s http_server", f->get_name());\n            return SUCCESS;',
              '            sp_debug("success %s http_server", f->get_name());\n            ret = SUCCESS;')],
      demo=PRE + '''
struct H : public IPhaseHandler {
    H(int a) : IPhaseHandler("h"), answer(a) {}
    error_t handler(IConnection&) override { ++n; return answer; }
    int answer, n = 0;
};
int main() {
    ServerPhaseHandler s;
    auto a = std::make_shared<H>(0), b = std::make_shared<H>(1), c = std::make_shared<H>(0);
    s.reg(a); s.reg(b); s.reg(c);
    IConnection conn(nullptr);
    CHECK(s.handler(conn) == SUCCESS);
    CHECK(a->n == 1 && b->n == 1 && c->n == 0);
    return 0;
}
'''),
]
