"""P09: which host block serves a request"""
import flow
from flow import ZERO, NULL, I, show, subterms
from program import AnalysisError, walk
from rules import common as C
from rules.cache import segments

ROUTER = 'sps::HostModulesRouter'
HOST = 'sps::HostModule'
NAME = 'sps::IModule::module_name'
NPOS = I((1 << 64) - 1)


def router_fields(prog):
    """(map fields, single fields) of the router that hold host blocks"""
    maps, singles = [], []
    for c in prog.bases(ROUTER):
        for fl in (prog.records.get(c) or {}).get('fields', []):
            if HOST in fl['t']:
                (maps if 'map<' in fl['t'] else singles).append(fl['q'])
    if len(maps) != 2 or len(singles) != 1:
        raise AnalysisError('router members: %s %s' % (maps, singles))
    return maps, singles[0]


def inline_hosts(f, fr=None):
    return not f['f'].endswith('::handler')


def map_of(t):
    """field of a container term/location"""
    if t[0] == 'ld':
        t = t[1]
    return t[2] if t[0] == 'F' else None


def origin(v):
    """what a returned host block is: ('map', field, key, lookup) ('one', field) ('null',) ('?',)"""
    if v == NULL:
        return ('null',)
    if v[0] == 'ld':
        loc = v[1]
        if loc[0] == 'F' and loc[2] == 'std::pair::second' and loc[1][0] == 'D' and loc[1][1][0] == 'itp':
            t = loc[1][1][1]
            if t[0] == 'call' and t[1] == 'find':
                return ('map', map_of(t[2]), t[3], t)
        if loc[0] == 'I':
            return ('map', map_of(loc[1]), loc[2], None)
        if loc[0] == 'F':
            return ('one', loc[2])
    if v[0] == 'call' and v[1] == 'at':
        return ('map', map_of(v[2]), v[3], None)
    return ('?',)


def lookups(s, q, key=None):
    """lookup terms of the path in map q (of that key)"""
    out = []
    for e in s.ev:
        if e[0] == 'q' and e[1] in ('find', 'count') and map_of(e[2]) == q and e[3]:
            if key is None or e[3][0] == key:
                out.append((e[3][0], e[4]))
    return out


def found(s, t):
    """True / False / None: does the path know whether lookup t found something?"""
    if t[1] == 'find':
        r = s.truth(flow.eqatom(t, ('call', 'end', t[2])))
    else:
        r = s.truth(('eq', t, ZERO))
    return None if r is None else not r


def knows(s, q, key):
    r = [found(s, t) for k, t in lookups(s, q, key)]
    return True if True in r else False if False in r else None


def empty(s, q):
    for x, v in s.eq.items():
        if x[0] == 'call' and x[1] in ('size',) and map_of(x[2]) == q and v == ZERO:
            return True
    for a, b in s.facts:
        if a[0] == 'call' and a[1] == 'empty' and map_of(a[2]) == q and b:
            return True
    return False


def suffix(s, key, x):
    """is key the part of x from its first dot on (or the empty text when there is none)?"""
    dot = ('call', 'find', x, I(46), ZERO)
    if key[0] == 'call' and key[1] == 'substr' and len(key) == 5 and key[2] == x and key[4] == NPOS:
        return key[3] == dot or key[3] in (('add', dot, I(1)), ('+', dot, I(1)), ('bin', '+', dot, I(1)))
    if key == ('s', ''):
        return s.truth(flow.eqatom(dot, NPOS)) is True
    return False


def changes(s, key):
    """what else is done to the text of the key on the path (std::reverse...)"""
    return sorted(e[1] for e in s.ev if e[0] == 'call' and any(key in subterms(a) for a in C.vargs(e) if isinstance(a, tuple)))


def inserts(s, maps, one):
    out = []
    reg = C.Registry.__new__(C.Registry)
    reg.q = set(maps)
    for i, op, k, v in reg.ops(s.ev):
        if op != 'lookup':
            out.append((i, op, map_of(s.ev[i][1][1]) if s.ev[i][0] == 'st' else map_of(s.ev[i][2]), k, v))
    for i, e in enumerate(s.ev):
        if e[0] == 'st' and e[1][0] == 'F' and e[1][2] == one:
            out.append((i, 'set', one, None, e[2]))
    return sorted(out, key=lambda x: x[0])


def char(s, name, i):
    """known value of character i of the name (or None), and values it is known not to have"""
    val, neq = None, set()
    for a, b in s.facts:
        if a[0] != 'eq':
            continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if y[0] == 'i' and is_char(x, name, i):
                if b:
                    val = y[1]
                else:
                    neq.add(y[1])
            if x == name and y[0] == 's':
                t = y[1]
                if b:
                    val = ord(t[i]) if i < len(t) else 0
    for x, y in s.eq.items():
        if y[0] == 'i' and is_char(x, name, i):
            val = y[1]
    return val, neq


def is_char(x, name, i):
    if x[0] == 'ld' and x[1][0] == 'I' and x[1][2] == I(i):
        base = x[1][1]
        return base == name or (name[0] == 'ld' and base == name[1])
    if x[0] == 'call' and x[1] in ('at', 'operator[]') and len(x) == 4 and x[3] == I(i):
        return x[2] == name
    if i == 0 and x[0] == 'call' and x[1] == 'front':
        return x[2] == name
    return False


def p09(ctx):
    prog = ctx.prog
    maps, one = router_fields(prog)
    names = {q: q.rsplit('::', 1)[-1] for q in maps + [one]}
    ctx.assume('a host block\'s module_name is not changed after it was registered')

    # ------------------------------------------------------------------ registering
    R = 'register'
    ctx.rule(R, 'register_host keeps every block it accepts in exactly one place: the name itself for a plain name, the part from the first '
             'dot for "*.x", the single default for "*"; an occupied place is refused and nothing is replaced')
    f = prog.fn(ROUTER + '::register_host')
    x = flow.Exec(prog)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    param = ('p', f['params'][0]['n'])
    exact = wild = None
    wform = None
    classes = set()
    for s, v in res:
        ins = inserts(s, maps, one)
        what = 'register_host: a path that answers %s' % show(v)
        if v != ZERO:
            ctx.judge(not ins, R, what + ' and refuses', f['file'], f['l'], f['f'], 'a block that is refused was stored all the same',
                      witness=C.witness(s, v))
            continue
        if len(ins) != 1 or ins[0][1] not in ('insert', 'set'):
            ctx.fail(R, what, f['file'], f['l'], f['f'], 'an accepted block is stored in %d places' % len(ins), key='register|n', witness=C.witness(s, v))
            continue
        i, op, q, key, val = ins[0]
        e = s.ev[i]
        line = C.line_of(e)
        name = next((t for t in subterms(key) if t[0] == 'ld' and t[1][0] == 'F' and t[1][2] == NAME), None) if key is not None else None
        if name is None:
            for a, b in s.facts:
                for y in locs(a):
                    if y[0] == 'F' and y[2] == NAME:
                        name = ('ld', y, 0)
        if val != param and not (val[0] == 'ref'):
            ctx.fail(R, what, *line, 'stores %s instead of the block it was given' % show(val), key='register|val', witness=C.witness(s, v))
        if name is None:
            ctx.fail(R, what, *line, 'a block is accepted without looking at its name', key='register|name', witness=C.witness(s, v))
            continue
        c0, c1, c2 = char(s, name, 0), char(s, name, 1), char(s, name, 2)
        if q == one:
            ok = c0[0] == 42 and c1[0] == 0
            free = any(s.truth(flow.eqatom(t, NULL)) is True for a, b in s.facts for t in subterms(a)
                       if t[0] == 'ld' and t[1][0] == 'F' and t[1][2] == one)
            ctx.judge(ok, R, 'the default place is for "*"', *line, 'a block whose name is not known to be "*" becomes the default', witness=C.witness(s, v))
            ctx.judge(free, R, 'the default place is free', *line, 'the default block is replaced without checking that there is none',
                      witness=C.witness(s, v))
            classes.add('default')
            continue
        if key == name:
            exact = q
            ok = (c0[0] is not None and c0[0] != 42) or 42 in c0[1]
            ctx.judge(ok, R, 'an exact name does not start with *', *line, 'a wildcard name is stored as an exact one', witness=C.witness(s, v))
            classes.add('exact')
        else:
            sfx = suffix(s, key, name)
            if key == ('s', ''):
                # "*." has a dot; this path cannot be taken unless the name has none
                if c1[0] == 46:
                    ctx.ok(R, 'a name that starts with "*." has a dot')
                    continue
            ok = c0[0] == 42 and c1[0] == 46 and (0 in c2[1] or (c2[0] not in (None, 0)))
            ctx.judge(ok, R, 'a wildcard name is "*.x"', *line, 'a name not known to be "*.x" is stored as a wildcard', witness=C.witness(s, v))
            ctx.judge(sfx, R, 'a wildcard is stored under the part from its first dot', *line,
                      'the wildcard is stored under %s' % show(key), witness=C.witness(s, v))
            wild = q
            wform = (key[0], key[1], show(key[3]).replace(show(name), 'X') if len(key) > 3 else '', tuple(changes(s, key)))
            classes.add('wildcard')
        free = any(k == key and found(s, t) is False for k, t in lookups(s, q))
        ctx.judge(free, R, '%s names are refused when taken' % ('exact' if key == name else 'wildcard'), *line,
                  'the block registered under the same name before is replaced', witness=C.witness(s, v))
    for c in ('exact', 'wildcard', 'default'):
        ctx.judge(c in classes, R, 'register_host accepts %s names' % c, f['file'], f['l'], f['f'], 'no path accepts a %s name' % c)
    if exact is None or wild is None:
        return
    # ------------------------------------------------------------------ choosing
    R = 'choose'
    ctx.rule(R, 'find_host answers the exact block of the host when there is one; else the block stored under the part of the host from its '
             'first dot (the same key function register_host uses); else the default - on every path')
    f = prog.fn(ROUTER + '::find_host')
    x = flow.Exec(prog)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    host = ('p', f['params'][0]['n'])
    kinds = set()
    for s, v in res:
        o = origin(v)
        w = C.witness(s, v)
        # a null answer read from a place known to be empty
        what = 'find_host answers %s' % show(v)
        if o[0] == 'one' and o[1] == one or (o == ('null',) and any(
                t[0] == 'ld' and t[1][0] == 'F' and t[1][2] == one and s.truth(flow.eqatom(t, NULL)) is True
                for a, _ in s.facts for t in subterms(a))):
            kinds.add('default')
            ctx.judge(knows(s, exact, host) is False or empty(s, exact), R, 'the default is answered only without an exact block', f['file'], f['l'], f['f'],
                      'the default block is answered although the exact block was not looked for', witness=w)
            nw = empty(s, wild) or any(suffix(s, k, host) and found(s, t) is False for k, t in lookups(s, wild)) or \
                s.truth(flow.eqatom(('call', 'find', host, I(46), ZERO), NPOS)) is True
            ctx.judge(nw, R, 'the default is answered only without a wildcard block', f['file'], f['l'], f['f'],
                      'the default block is answered although no wildcard block was ruled out', witness=w)
        elif o[0] == 'map' and o[1] == exact:
            kinds.add('exact')
            ctx.judge(o[2] == host, R, 'the exact block is that of the host', f['file'], f['l'], f['f'], 'the block of %s is answered' % show(o[2]), witness=w)
            ctx.judge(knows(s, exact, o[2]) is True, R, 'an exact block is answered only when found', f['file'], f['l'], f['f'],
                      'a lookup that found nothing is used', witness=w)
        elif o[0] == 'map' and o[1] == wild:
            kinds.add('wildcard')
            key = o[2]
            ctx.judge(suffix(s, key, host), R, 'the wildcard block is that of the part from the first dot', f['file'], f['l'], f['f'],
                      'the block of %s is answered' % show(key), witness=w)
            if key != ('s', ''):
                form = (key[0], key[1], show(key[3]).replace(show(host), 'X') if len(key) > 3 else '', tuple(changes(s, key)))
                ctx.judge(form == wform, R, 'hosts and wildcards use one key function', f['file'], f['l'], f['f'],
                          'wildcards are stored under %s but looked for under %s' % (wform, form), witness=w)
            ctx.judge(knows(s, wild, key) is True, R, 'a wildcard block is answered only when found', f['file'], f['l'], f['f'],
                      'a lookup that found nothing is used', witness=w)
            ctx.judge(knows(s, exact, host) is False or empty(s, exact), R, 'a wildcard block is answered only without an exact block', f['file'], f['l'], f['f'],
                      'a wildcard block is answered although the exact block was not looked for', witness=w)
        else:
            ctx.fail(R, 'find_host answers one of the blocks', f['file'], f['l'], f['f'], 'answers %s' % show(v), key='choose|other', witness=w)
    for c in ('exact', 'wildcard', 'default'):
        ctx.judge(c in kinds, R, 'find_host can answer the %s block' % c, f['file'], f['l'], f['f'], 'no path answers a %s block' % c)

    # ------------------------------------------------------------------ merging routers
    R = 'merge'
    ctx.rule(R, 'merging a router takes over every block of it (exact, wildcard, default), refuses names both have, and replaces nothing')
    f = prog.fn(ROUTER + '::merge')
    x = flow.Exec(prog)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    other = ('p', f['params'][0]['n'])

    def of_other(t, q):
        if t[0] == 'ld':
            t = t[1]
        return t[0] == 'F' and t[2] == q and t[1] == ('D', other)
    ended = {}
    for s, v in res:
        w = C.witness(s, v)
        ins = inserts(s, maps, one)
        for i, op, q, key, val in ins:
            line = C.line_of(s.ev[i])
            if q == one:
                ctx.judge(of_other(val, one), R, 'the default block comes from the merged router', *line, 'the default becomes %s' % show(val), witness=w)
                ctx.judge(nullknown(s, one, other) or nullknown(s, one, ('this',)), R, 'the default block is not replaced', *line,
                          'the default block is replaced although both routers may have one', witness=w)
            elif op == 'insert' and key is not None:
                free = any(k == key and found(s, t) is False for k, t in lookups(s, q))
                ctx.judge(free, R, 'merged %s names are refused when taken' % names[q], *line, 'a block of this router is replaced', witness=w)
            elif op != 'insert':
                ctx.fail(R, 'merge only adds', *line, 'merge removes blocks', witness=w)
        if v == ZERO:
            has = not nullknown(s, one, other)
            if has:
                ctx.judge(any(q == one and of_other(val, one) for _, _, q, _, val in ins), R, 'a default block of the merged router is taken over',
                          f['file'], f['l'], f['f'], 'the merged router may have a default block, which is dropped', witness=w)
            for q in maps:
                seen = False
                for e in s.ev:
                    if e[0] in ('each', 'rfor0') and of_other(e[2], q):
                        seen = True
                    if e[0] == 'mut' and e[1] == 'insert' and map_of(e[2]) == q and any(of_other(t, q) for a in e[3] for t in subterms(a)):
                        seen = True
                ctx.judge(seen, R, 'the %s of the merged router are taken over' % names[q], f['file'], f['l'], f['f'],
                          'merge succeeds without going through the %s of the merged router' % names[q], witness=w)
        for sg in segments(s.ev):
            each, evs = sg[0], sg[1]
            for q in maps:
                if of_other(each[2], q) and v == ZERO:
                    el = each[3]
                    good = any(e[0] == 'st' and e[1][0] == 'I' and map_of(e[1][1]) == q and is_part(e[1][2], el, 'first') and is_part(e[2], el, 'second')
                               for e in evs) or any(e[0] == 'mut' and e[1] in ('insert', 'emplace') and map_of(e[2]) == q for e in evs)
                    ctx.judge(good, R, 'each of the %s of the merged router is stored' % names[q], f['file'], f['l'], f['f'],
                              'an iteration over the merged %s does not store its element under its own name' % names[q], witness=w)

    # ------------------------------------------------------------------ getting there
    R = 'route'
    ctx.rule(R, 'a request is handed to the handler of its host only with the block find_host answers for the request\'s own host, and to the '
             'not-found handler (or refused) when there is none')
    f = prog.fn('sps::HostRouterPhaseHandler::handler')
    x = flow.Exec(prog, inline=inline_hosts, model={ROUTER + '::find_host': C.event_only()})
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    HCTX = 'sps::HostContext::host'
    served = 0
    for s, v in res:
        w = C.witness(s, v)
        fh = [e for e in s.ev if e[0] == 'call' and e[1] == ROUTER + '::find_host']
        hs = [e for e in s.ev if e[0] == 'call' and e[1].endswith('::handler')]
        ok = len(fh) == 1 and is_req_host(C.vargs(fh[0])[0])
        ctx.judge(ok, R, 'the host looked for is the request\'s', f['file'], f['l'], f['f'],
                  'find_host is asked for %s' % (show(C.vargs(fh[0])[0]) if fh else 'nothing'), witness=w)
        if not fh:
            continue
        t = fh[0][5]
        known = s.truth(flow.eqatom(t, NULL))
        sets = [e for e in s.ev if e[0] == 'st' and e[1][0] == 'F' and e[1][2] == HCTX]
        for e in hs:
            fld = field_name(e[3])
            if fld and 'not_found' in fld:
                continue
            served += 1
            ctx.judge(known is False, R, 'the host handler runs only with a block', *C.line_of(e), 'a request without a host block reaches the host handler', witness=w)
            ctx.judge(bool(sets) and sets[-1][2] == t and s.ev.index(sets[-1]) < s.ev.index(e), R, 'the handler is given the chosen block', *C.line_of(e),
                      'the context handed on does not hold the block that was chosen', witness=w)
        if known is not True:
            ctx.judge(any('not_found' not in (field_name(e[3]) or '') for e in hs), R, 'a request with a block is served', f['file'], f['l'], f['f'],
                      'a request whose host block exists is not handed to the host handler', witness=w)
        else:
            ctx.judge(v != ZERO or bool(hs), R, 'a request without a block is answered', f['file'], f['l'], f['f'], 'a request without a host block is answered success', witness=w)
    if not served:
        raise AnalysisError('HostRouterPhaseHandler: no path serves a request')

    # ------------------------------------------------------------------ the type decides the handler
    R = 'type'
    ctx.rule(R, 'an HTTP request is served by the stream handler exactly on hosts of type "stream", by the api handler exactly on "api", else by the proxy')
    f = prog.fn('sps::HttpAdapterPhaseHandler::handler')
    made = {}
    for k in prog.ctors('sps::HttpAdapterPhaseHandler'):
        y = flow.Exec(prog, inline=inline_hosts)
        for s, v in y.run(k):
            objs = {e[3]: e[1] for e in s.ev if e[0] == 'make'}
            for e in s.ev:
                if e[0] == 'st' and e[1][0] == 'F' and e[2] in objs:
                    made.setdefault(e[1][2], set()).add(objs[e[2]])
    x = flow.Exec(prog, inline=inline_hosts)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    WANT = {'stream': 'sps::HttpStreamPhaseHandler', 'api': 'sps::HttpApiPhaseHandler', None: 'sps::HttpProxyPhaseHandler'}
    got = set()
    for s, v in res:
        w = C.witness(s, v)
        ty, nty = None, set()
        for a, b in s.facts:
            if a[0] == 'eq':
                for p, q in ((a[1], a[2]), (a[2], a[1])):
                    if p[0] == 'ld' and p[1][0] == 'F' and p[1][2] == 'sps::HostConfCtx::type' and q[0] == 's':
                        if b:
                            ty = q[1]
                        else:
                            nty.add(q[1])
        hs = [e for e in s.ev if e[0] == 'call' and e[1].endswith('::handler')]
        cls = set()
        for e in hs:
            q = e[3][1][2] if e[3] is not None and e[3][0] == 'ld' and e[3][1][0] == 'F' else None
            cls |= made.get(q, {e[1].rsplit('::', 1)[0]})
        want = WANT.get(ty, WANT[None])
        if ty is None and not {'stream', 'api'} <= nty:
            want = None
        got.add(want)
        ctx.judge(cls == {want}, R, 'the handler of a host of %s' % ('type "%s"' % ty if ty else 'another type'), f['file'], f['l'], f['f'],
                  'a host of %s is served by %s' % ('type "%s"' % ty if ty else 'a type not fully told apart', ', '.join(sorted(cls)) or 'nothing'), witness=w)
    for k, c in WANT.items():
        ctx.judge(c in got, R, '%s hosts are told apart' % (k or 'other'), f['file'], f['l'], f['f'], 'no path serves hosts of type %s by %s' % (k, c))

    # ------------------------------------------------------------------ servers give all their hosts to the router
    R = 'all-hosts'
    ctx.rule(R, 'every host block of a server reaches the router of its port: get_router registers each of them and says when one is refused, and a '
             'second server block of a port hands its own over to the router already in use')
    rmodel = {ROUTER + '::register_host': C.event_only()}
    f = prog.fn('sps::ServerModule::get_router')
    each_registered(ctx, prog, R, f, rmodel, 'get_router')
    # the router in use is remembered by the server
    x = flow.Exec(prog, model=rmodel)
    routerf = None
    for s, v in x.run(f):
        regd = {e[3] for e in s.ev if e[0] == 'call' and e[1] == ROUTER + '::register_host'}
        for e in s.ev:
            if e[0] == 'st' and e[1][0] == 'F' and e[1][2].startswith('sps::ServerModule::') and (e[2] in regd or e[2][0] in ('new', 'obj', 'alloc')):
                routerf = e[1][2]
    if routerf is None:
        for r in [prog.records.get('sps::ServerModule')]:
            for fl in r['fields']:
                if ROUTER in fl['t']:
                    routerf = fl['q']
    f = prog.fn('sps::ServerModule::merge_server')
    if routerf is None:
        ctx.fail(R, 'merge_server', f['file'], f['l'], f['f'], 'the hosts of a second server block never reach the router of the port: the server does not know it')
    else:
        each_registered(ctx, prog, R, f, rmodel, 'merge_server', routerf)
    # blocks outside of any server are part of every server
    f = prog.fn('sps::ServerModule::merge_global')
    x = flow.Exec(prog)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    n = 0
    for s, v in res:
        for sg in segments(s.ev):
            if 'host_modules' in show(sg[0][2]):
                n += 1
                el = sg[0][3]
                ok = any(e[0] == 'mut' and e[1] in ('push_back', 'emplace_back', 'insert') and map_of(e[2]) == 'sps::ServerModule::host_modules' and
                         any(a == el or el in list(subterms(a)) + locs(a) for a in e[3]) for e in sg[1])
                ctx.judge(ok, R, 'a global host block becomes one of the server', f['file'], f['l'], f['f'], 'a global host block is left out', witness=C.witness(s, v))
        for e in s.ev:
            if e[0] == 'mut' and e[1] == 'insert' and map_of(e[2]) == 'sps::ServerModule::host_modules' and 'GlobalHostModule' in str(e[3]):
                n += 1
    if not n:
        ctx.fail(R, 'merge_global', f['file'], f['l'], f['f'], 'the global host blocks are never given to the servers')
    # install: an already installed port gets the hosts merged
    n = 0
    for g in prog.by_name.values():
        for f in g:
            if not f['f'].endswith('Module::install') or f['f'] in ('sps::ServerModule::install', 'sps::IModule::install'):
                continue
            if not any(m.get('k') == 'call' and m.get('f') == 'sps::ServerModule::get_server' for m in walk(f['body'])):
                continue
            n += 1
            x = flow.Exec(prog, inline=lambda h, fr=None: False, model={})
            res = x.run(f)
            ctx.see(x)
            ctx.paths += len(res)
            for s, v in res:
                for sg in segments(s.ev):
                    evs = sg[1]
                    gs = [e for e in evs if e[0] == 'call' and e[1] == 'sps::ServerModule::get_server']
                    if not gs:
                        continue
                    have = s.truth(flow.eqatom(gs[0][5], NULL)) is False
                    ms = [e for e in evs if e[0] == 'call' and e[1] in ('sps::ServerModule::merge_server', 'sps::ServerModule::merge_hosts')]
                    it = [e for e in evs if e[0] == 'call' and e[1] == 'sps::ServerModule::install']
                    rt = [e for e in evs if e[0] == 'call' and e[1] == 'sps::ServerModule::get_router']
                    if have:
                        ctx.judge(any(e[3] == gs[0][5] for e in ms), R, '%s: a taken port takes over the hosts' % f['f'], *C.line_of(gs[0]),
                                  'a server block of a port in use is dropped', witness=C.witness(s, v))
                    for e in it:
                        ctx.judge(bool(rt) and evs.index(rt[0]) < evs.index(e), R, '%s: a server is installed with its router' % f['f'], *C.line_of(e),
                                  'the server is installed without a router of its hosts', witness=C.witness(s, v))
    if n < 2:
        raise AnalysisError('only %d install functions found' % n)

    # ------------------------------------------------------------------ certificates
    R = 'certificate'
    ctx.rule(R, 'the certificate offered for a server name is the key and certificate of the block find_host answers for it, or none')
    f = prog.fn(ROUTER + '::search')
    x = flow.Exec(prog, model={ROUTER + '::find_host': C.event_only()})
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    good = 0
    for s, v in res:
        w = C.witness(s, v)
        fh = [e for e in s.ev if e[0] == 'call' and e[1] == ROUTER + '::find_host']
        ctx.judge(bool(fh) and C.vargs(fh[0])[0] == ('p', f['params'][0]['n']), R, 'the block looked for is that of the server name', f['file'], f['l'], f['f'],
                  'the certificate of another name is looked for', witness=w)
        if not fh or v != ZERO:
            continue
        good += 1
        t = fh[0][5]
        ctx.judge(s.truth(flow.eqatom(t, NULL)) is False, R, 'a certificate is offered only with a block', f['file'], f['l'], f['f'], 'no block, yet success', witness=w)
        for dst, src in (('key_file', 'sps::HostConfCtx::ssl_key_file'), ('crt_file', 'sps::HostConfCtx::ssl_crt_file')):
            st = [e for e in s.ev if e[0] == 'st' and e[1][0] == 'F' and e[1][2].endswith('::' + dst)]
            ok = bool(st) and any(y[0] == 'F' and y[2] == src for y in locs(st[-1][2])) and any(y == t for y in subterms(st[-1][2]))
            ctx.judge(ok, R, 'the %s comes from the block' % dst, f['file'], f['l'], f['f'],
                      'the %s offered is %s' % (dst, show(st[-1][2]) if st else 'not set'), witness=w)
    if not good:
        ctx.fail(R, 'search can succeed', f['file'], f['l'], f['f'], 'no path offers a certificate')

    # ------------------------------------------------------------------ proxied to its own upstream
    R = 'upstream'
    ctx.rule(R, 'a proxied request goes to the upstream of its own block, or to its pass_proxy when it has none')
    f = prog.fn(HOST + '::get_proxy_info')
    x = flow.Exec(prog)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    for s, v in res:
        w = C.witness(s, v)
        up = None
        for a, b in s.facts:
            if a[0] == 'eq' and NULL in a and any(t[0] == 'ld' and t[1][0] == 'F' and t[1][2] == HOST + '::upstream_module' for t in (a[1], a[2])):
                up = not b
        src = 'sps::UpStreamConfCtx::server' if up else 'sps::HostConfCtx::pass_proxy'
        outs = [e for e in s.ev if e[0] == 'st' and e[1][0] == 'D' and e[1][1] == ('p', f['params'][0]['n'])] or \
            [e for e in s.ev if e[0] == 'st' and any(t == ('p', f['params'][0]['n']) for t in subterms(e[1]))]
        ok = up is not None and bool(outs) and any(y[0] == 'F' and y[2] == src for y in locs(outs[-1][2]))
        ctx.judge(ok, R, 'the address of a host %s' % ('with an upstream' if up else 'without one'), f['file'], f['l'], f['f'],
                  'the address is taken from %s' % (show(outs[-1][2]) if outs else 'nowhere'), witness=w)


def locs(t):
    """all locations inside a term"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] in ('F', 'D', 'I', 'L', 'G'):
                out.append(x)
            for y in x:
                go(y)
    go(t)
    return out


def is_part(t, el, part):
    if t[0] == 'ld':
        t = t[1]
    return t[0] == 'F' and t[2] == 'std::pair::' + part and el in list(subterms(t)) + locs(t) + [t[1]]


def nullknown(s, q, base):
    for a, b in s.facts:
        if a[0] == 'eq' and b and NULL in a[1:]:
            for t in a[1:]:
                if t[0] == 'ld' and t[1][0] == 'F' and t[1][2] == q and t[1][1] == ('D', base):
                    return True
    return False


def field_name(t):
    if t is not None and t[0] == 'ld' and t[1][0] == 'F':
        return t[1][2]
    return None


def is_req_host(t):
    if t[0] == 'ld':
        t = t[1]
    return t[0] == 'F' and t[2] == 'sps::RequestUrl::host'


def each_registered(ctx, prog, R, f, model, what, routerf=None):
    """every host of the server given reaches register_host, and a refusal ends with an error"""
    x = flow.Exec(prog, model=model)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    n = 0
    for s, v in res:
        w = C.witness(s, v)
        loops = [sg for sg in segments(s.ev) if 'host_modules' in show(sg[0][2])]
        zero = any(e[0] == 'rfor0' and 'host_modules' in show(e[2]) for e in s.ev)
        if maybe_ok(s, v) and not loops and not zero:
            ctx.fail(R, what + ' goes through all hosts', f['file'], f['l'], f['f'], '%s succeeds without going through the hosts' % what, witness=w)
        for sg in loops:
            el = sg[0][3]
            calls = [e for e in sg[1] if e[0] == 'call' and e[1] == ROUTER + '::register_host']
            n += 1
            if not calls:
                if routerf and (nullrouter(s, routerf) or already(s, sg[1], el)):
                    continue
                if maybe_ok(s, v):
                    ctx.fail(R, what + ' registers each host', f['file'], f['l'], f['f'], 'a host block is left out of the router', key=R + what, witness=w)
                continue
            e = calls[0]
            a = C.vargs(e)[0]
            same = a == el or a == ('ld', el, 0) or el in list(subterms(a)) + locs(a)
            ctx.judge(same, R, what + ' registers each host', *C.line_of(e), 'registers %s' % show(a), witness=w)
            if routerf:
                ctx.judge(field_name(e[3]) == routerf, R, what + ' registers with the router in use', *C.line_of(e), 'registers with %s' % show(e[3]), witness=w)
            if s.truth(('eq', e[5], ZERO)) is False:
                on = any(q[0] == 'endloop' and q[1] == sg[0][1] for q in s.ev) and not sg[2]
                ctx.judge(not on, R, what + ' stops when a host is refused', *C.line_of(e), 'after a refused host block the next ones are registered, '
                          'and their answer replaces the refusal', witness=w)
                ctx.judge(not maybe_ok(s, v), R, what + ' says when a host is refused', *C.line_of(e), 'a refused host block goes unnoticed', witness=w)
    if not n:
        ctx.fail(R, what + ' registers each host', f['file'], f['l'], f['f'], 'no host is registered')


def nullrouter(s, q):
    for a, b in s.facts:
        if a[0] == 'eq' and b and NULL in a[1:] and any(field_name(t) == q for t in a[1:]):
            return True
    return False


def already(s, evs, el):
    """the iteration found the very same block among those of the server"""
    for e in evs:
        if e[0] == 'call' and e[1] in ('std::find', 'std::count') and any(a == el or el in subterms(a) for a in C.vargs(e)):
            for a, b in s.facts:
                if a[0] == 'eq' and not b and e[5] in a[1:]:
                    return True
    return False


def maybe_ok(s, v):
    return v == ZERO or s.truth(('eq', v, ZERO)) is not False
