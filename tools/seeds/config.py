PRE = '''
#include <functional>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#include <sps_io.hpp>
#include <sps_module.hpp>
#include <sps_host_global_module.hpp>
#include <sps_server_module.hpp>
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
struct Lines : public IReader {
    explicit Lines(std::vector<std::string> l) : lines(l) {}
    void set_recv_timeout(utime_t) override {}
    utime_t get_recv_timeout() override { return 0; }
    error_t read_fully(void*, size_t, ssize_t*) override { return ERROR_IO_EOF; }
    error_t read(void*, size_t, size_t&) override { return ERROR_IO_EOF; }
    error_t read_line(std::string& line) override {
        if (n >= lines.size()) return ERROR_IO_EOF;
        line = lines[n++];
        return SUCCESS;
    }
    std::vector<std::string> lines;
    size_t n = 0;
};
static std::shared_ptr<HostModule> host() { return std::make_shared<HostModule>("host", "h", nullptr); }
'''
M = 'src/module/sps_module.cpp'
O = 'src/module/sps_module_opt.cpp'
SEEDS = [
 dict(id='P15-unclosed-block', prop='P15',
      needs='a configuration file that ends inside a nested block',
      what='a truncated configuration is accepted and runs',
      edits=[(M, '(!is_module("root") && cmd_type != SUBMODULE_END)) {', '(!is_module("root") && ret != ERROR_IO_EOF && cmd_type != SUBMODULE_END)) {')],
      demo=PRE + '''
int main() {
    auto a = host();
    CHECK(a->init_conf(std::make_shared<Lines>(std::vector<std::string>{"role source;", "}"})) == SUCCESS);
    auto b = host();
    CHECK(b->init_conf(std::make_shared<Lines>(std::vector<std::string>{"role source;"})) != SUCCESS);
    return 0;
}
'''),
 dict(id='P15-long-timeout', prop='P15',
      needs='a time limit of more than 2147 seconds (microseconds do not fit 32 bits)',
      what='a configured time limit is cut to 32 bits',
      edits=[(O, 'int64_t num = len > 0 ? atoll(val) : 0;', 'int64_t num = len > 0 ? atoi(val) : 0;')],
      demo=PRE + '''
int main() {
    ServerConfCtx c;
    for (int i = 0; server_options[i].name; i++) {
        if (!strcmp(server_options[i].name, "recv_timeout")) {
            CHECK(server_options[i].opt_set(&c, "7200000000", 10) == SUCCESS);
            CHECK((int64_t) c.recv_timeout == 7200000000LL);
            CHECK(server_options[i].opt_set(&c, "-1", 2) == SUCCESS);
            CHECK((int64_t) c.recv_timeout == -1);
            return 0;
        }
    }
    return 1;
}
'''),
]
