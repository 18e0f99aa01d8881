PRE = '''
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#define protected public
#include <sps_log.hpp>
%s
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %%s\\n", #x); return 1; } } while (0)
'''
SEEDS = [
 dict(id='P16-single-label', prop='P16',
      needs='a configuration with a wildcard host and a request whose Host has no dot',
      what='the text of the host is cut at a dot that is not there: an exception nobody catches ends the server',
      edits=[('src/module/host/sps_host_module.cpp', '''    if (n == std::string::npos) {
        return "";
    }

    host = host.substr(n);''', '''    if (n == 0 || host.empty()) {
        return "";
    }

    host = host.substr(n);''')],
      demo=PRE % '#include <sps_host_module.hpp>' + '''
int main() {
    HostModulesRouter r;
    r.wildcard_hosts["moc.elpmaxe."] = nullptr;
    CHECK(r.find_host("www.example.com") == nullptr);
    CHECK(r.find_host("") == nullptr);
    CHECK(r.find_host("localhost") == nullptr);
    return 0;
}
'''),
 dict(id='P16-short-streamid', prop='P16',
      needs='an SRT caller whose stream id has fewer than four characters',
      what='the stream id is cut behind its end: an exception nobody catches ends the server',
      edits=[('src/module/srt/sps_srt_server_handler.cpp', '''    if (streamid.size() < 5) {
        sp_error("fail parse srt streamid (%s) size < 5", streamid.c_str());
        return nullptr;
    }
''', '''    if (streamid.empty()) {
        sp_error("fail parse srt streamid is empty");
        return nullptr;
    }
''')],
      demo=PRE % '#include <sps_io_url.hpp>' + '''
namespace sps { PRequestUrl get_url_by_streamid(const std::string& streamid); }
int main() {
    for (auto id : {"", "a", "ab", "abc", "abcd", "#!::h=x", "#!::m=play,", "#!::=,=,,"}) get_url_by_streamid(id);
    return 0;
}
'''),
 dict(id='P16-stolen-accept', prop='P16',
      needs='two coroutines accept TLS connections, and one takes the connection the other was woken for',
      what='the woken one takes an element from an empty list',
      edits=[('src/sys/st/io/sps_sys_st_io_ssl.cpp', '''    while (ready_sockets.empty()) {
        condition->wait(SLEEP_FOREVER);
    }
''', '''    if (ready_sockets.empty()) {
        condition->wait(SLEEP_FOREVER);
    }
''')],
      demo=PRE % '#include <st.h>\n#include <sps_sys_st_io_ssl.hpp>' + '''
static StSSLServerSocket* srv;
static int got = 0;
static void* one(void*) { srv->accept(); got++; return nullptr; }
int main() {
    st_init();
    srv = new StSSLServerSocket(nullptr);
    st_thread_create(one, nullptr, 1, 0);
    st_usleep(1000);
    srv->push_socket(nullptr);  // wakes the waiting one
    srv->accept();              // but this one is quicker
    for (int i = 0; i < 5; i++) st_usleep(1000);
    CHECK(got == 0 && srv->ready_sockets.empty() && srv->ready_sockets.size() == 0);
    srv->push_socket(nullptr);
    for (int i = 0; i < 5; i++) st_usleep(1000);
    CHECK(got == 1);
    printf("ok\\n");
    fflush(stdout);
    _exit(0);
}
'''),
]
