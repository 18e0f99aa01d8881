PRE = '''
#include <functional>
#include <list>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <cstdio>
#include <cstring>
#define private public
#include <sps_host_router_handler.hpp>
#include <sps_host_module.hpp>
using namespace sps;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); return 1; } } while (0)
static PHostModule host(const char* name) { return std::make_shared<HostModule>("host", name, nullptr); }
'''
H = 'src/module/host/sps_host_module.cpp'
SEEDS = [
 dict(id='P09-last-dot', prop='P09',
      needs='a wildcard block and a host that only shares the last label with it',
      what='a wildcard block serves hosts of other domains (and no longer hosts below its own)',
      edits=[(H, "auto n = host.find('.');", "auto n = host.rfind('.');")],
      demo=PRE + '''
int main() {
    HostModulesRouter r;
    auto w = host("*.example.com");
    CHECK(r.register_host(w) == SUCCESS);
    CHECK(r.find_host("live.example.com") == w);
    CHECK(!r.find_host("live.other.com"));
    auto w2 = host("*.other.com");
    CHECK(r.register_host(w2) == SUCCESS);
    CHECK(r.find_host("live.other.com") == w2);
    return 0;
}
'''),
 dict(id='P09-host-of-first-request', prop='P09',
      needs='two requests for different hosts on one connection context',
      what='the second request is served by the host block of the first',
      edits=[('src/module/host/sps_host_router_handler.cpp', '    ctx.host = router->find_host(ctx.req->host);\n',
              '    if (!ctx.host) {\n        ctx.host = router->find_host(ctx.req->host);\n    }\n')],
      demo=PRE + '''
struct Last : public IPhaseHandler {
    Last() : IPhaseHandler("last") {}
    error_t handler(IConnection& c) override {
        seen = dynamic_cast<HostContext*>(c.get_context().get())->host;
        return SUCCESS;
    }
    PHostModule seen;
};
int main() {
    auto r = std::make_shared<HostModulesRouter>();
    auto a = host("a.example.com"), b = host("b.example.com");
    CHECK(r->register_host(a) == SUCCESS);
    CHECK(r->register_host(b) == SUCCESS);
    auto req = std::make_shared<RequestUrl>();
    auto last = std::make_shared<Last>();
    IConnection c(nullptr);
    c.set_context(std::make_shared<HostContext>(req));
    HostRouterPhaseHandler h(r, last, nullptr);
    req->host = "a.example.com";
    CHECK(h.handler(c) == SUCCESS && last->seen == a);
    req->host = "b.example.com";
    CHECK(h.handler(c) == SUCCESS && last->seen == b);
    req->host = "c.example.com";
    CHECK(h.handler(c) != SUCCESS);
    return 0;
}
'''),
 dict(id='P09-default-hides-wildcard', prop='P09',
      needs='a router with both a default block and a wildcard block that covers the host',
      what='the default block is served although a wildcard block covers the host',
      edits=[(H, '    if (wildcard_hosts.empty()) {\n        return default_host;', '    if (wildcard_hosts.empty() || default_host) {\n        return default_host;')],
      demo=PRE + '''
int main() {
    HostModulesRouter r;
    auto w = host("*.example.com"), d = host("*"), e = host("www.example.com");
    CHECK(r.register_host(w) == SUCCESS);
    CHECK(r.register_host(e) == SUCCESS);
    CHECK(r.find_host("live.example.com") == w);
    CHECK(r.register_host(d) == SUCCESS);
    CHECK(r.find_host("www.example.com") == e);
    CHECK(r.find_host("other.org") == d);
    CHECK(r.find_host("live.example.com") == w);
    return 0;
}
'''),
]
