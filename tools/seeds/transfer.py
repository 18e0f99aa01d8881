PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#define private public
#define protected public
#include <sps_log.hpp>
#include <sps_io_socket.hpp>
#include <sps_sys_st_io_tcp.hpp>
#include <sps_sys_st_io_ssl.hpp>
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
'''
IO = '''
class Feed : public IReaderWriter {
 public:
    std::string data; size_t at = 0; std::vector<size_t> pieces; size_t k = 0;
    error_t read(void* buf, size_t size, size_t& nread) override {
        if (at >= data.size()) return ERROR_IO_EOF;
        nread = std::min(std::min(size, pieces[k++ % pieces.size()]), data.size() - at);
        memcpy(buf, data.data() + at, nread);
        at += nread;
        return SUCCESS;
    }
    error_t read_fully(void* buf, size_t size, ssize_t* nread) override { return ERROR_IO_EOF; }
    error_t write(void* buf, size_t size) override { return SUCCESS; }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
};
'''
SEEDS = [
 dict(id='P03-second-piece', prop='P03',
      needs='a message that is read as a whole and arrives in more than one piece',
      what='the next piece does not follow the ones before',
      edits=[('src/io/sps_io_socket.cpp', '''        n += nr;
        nr = 0;''', '''        n = nr;
        nr = 0;''')],
      demo=PRE + IO + '''
int main() {
    auto f = std::make_shared<Feed>();
    f->data = "0123456789abcdefghij0123456789";
    f->pieces = {4, 5, 3};
    Socket s(f, "127.0.0.1", 1);
    char b[24];
    CHECK(s.read_fully(b, 3, nullptr) == SUCCESS && memcmp(b, "012", 3) == 0);
    memset(b, 0, sizeof(b));
    CHECK(s.read_fully(b, 14, nullptr) == SUCCESS);
    CHECK(memcmp(b, "3456789abcdefg", 14) == 0);
    CHECK(f->at == 17);
    return 0;
}
'''),
 dict(id='P03-partial-send', prop='P03',
      needs='a message larger than the free space of the socket buffer, written to a slow peer',
      what='only what fits into the socket buffer is sent and the write is reported as success',
      edits=[('src/sys/st/io/sps_sys_st_io_tcp.cpp', 'ssize_t nb_write = st_write(stfd, buf, size, stm);',
              'ssize_t nb_write = st_sendto(stfd, buf, size, nullptr, 0, stm);')],
      demo=PRE + '''
static int fds[2];
static size_t got = 0;
static bool done = false;
static void* drain(void*) {
    char b[4096];
    fcntl(fds[1], F_SETFL, O_NONBLOCK);
    while (true) {
        ssize_t n = ::read(fds[1], b, sizeof(b));
        if (n > 0) got += n;
        else if (done) break;
        else st_usleep(1000);
    }
    return nullptr;
}
int main() {
    st_init();
    CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, fds) == 0);
    StTcpSocket s(st_netfd_open_socket(fds[0]));
    s.set_send_timeout(10 * 1000 * 1000);
    st_thread_t t = st_thread_create(drain, nullptr, 1, 0);
    std::string big(4 << 20, 'x');
    CHECK(s.write((void*) big.data(), big.size()) == SUCCESS);
    done = true;
    st_thread_join(t, nullptr);
    CHECK(got == big.size());
    return 0;
}
'''),
 dict(id='P03-large-tls-message', prop='P03',
      needs='a message of more than one TLS record (16 KiB) written at once over TLS',
      what='the last, partly filled record is not sent and the write is reported as success',
      edits=[('src/sys/st/io/sps_sys_st_io_ssl.cpp', '    } while (nwrite < size);', '    } while (nwrite + SSL3_RT_MAX_PLAIN_LENGTH <= size);')],
      demo=PRE + '''
class Peer : public IReaderWriter {
 public:
    SSL* ssl; BIO* in; BIO* out; std::string plain;
    void turn() {
        char b[20000];
        if (!SSL_is_init_finished(ssl)) SSL_do_handshake(ssl);
        int n;
        while (SSL_is_init_finished(ssl) && (n = SSL_read(ssl, b, sizeof(b))) > 0) plain.append(b, n);
    }
    error_t read(void* buf, size_t size, size_t& nread) override {
        turn();
        int n = BIO_read(out, buf, size);
        if (n <= 0) return ERROR_IO_EOF;
        nread = n;
        return SUCCESS;
    }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    error_t write(void* buf, size_t size) override { BIO_write(in, buf, size); turn(); return SUCCESS; }
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    void set_send_timeout(utime_t) override {}
    utime_t get_send_timeout() override { return 0; }
};
int main() {
    EVP_PKEY* key = EVP_RSA_gen(2048);
    X509* x = X509_new();
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_get_notBefore(x), 0);
    X509_gmtime_adj(X509_get_notAfter(x), 3600);
    X509_set_pubkey(x, key);
    X509_sign(x, key, EVP_sha256());
    SSL_CTX* ctx = SSL_CTX_new(TLS_server_method());
    CHECK(SSL_CTX_use_certificate(ctx, x) == 1 && SSL_CTX_use_PrivateKey(ctx, key) == 1);
    auto p = std::make_shared<Peer>();
    p->ssl = SSL_new(ctx); p->in = BIO_new(BIO_s_mem()); p->out = BIO_new(BIO_s_mem());
    SSL_set_bio(p->ssl, p->in, p->out);
    SSL_set_accept_state(p->ssl);
    StSSLSocket s(p, SSL_CLIENT, SSLConfig());
    CHECK(s.init() == SUCCESS);
    std::string want;
    size_t sizes[] = {1, 1000, 16384, 16385, 40000, 70000};
    for (size_t n : sizes) {
        std::string m;
        for (size_t i = 0; i < n; ++i) m += (char) (i * 7 + n);
        CHECK(s.write((void*) m.data(), m.size()) == SUCCESS);
        want += m;
        CHECK(p->plain == want);
    }
    return 0;
}
'''),
]
