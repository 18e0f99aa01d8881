"""P02: a failing step is acted on, never reported as success"""
import multiprocessing as mp
import os
import re

import flow
from flow import ZERO, NULL, show, contains
from program import AnalysisError, walk
from rules.common import witness, callees, short, vargs

PROG = None
EXT_OK = {
    ('setsockopt', 'StUdpClientSocket::StUdpClientSocket'): 'the packet-info option only tunes what the socket reports',
    ('avcodec_parameters_to_context', 'FFmpegAVContext::init_input'): 'an undecodable stream of the input is skipped, the others are served',
}
# a failure made good by another call that worked
FALLBACK = {'srt_bind': ('socket', 'bind', 'srt_bind_acquire', 'sps::st_tcp_fd_reuseaddr', 'sps::st_tcp_fd_reuseport')}
# codes that are answers rather than failures
CODES = set()
CODE_NAMES = ('ERROR_SSL_HANDSHAKE_CONTINUE', 'ERROR_IO_EOF', 'ERROR_HTTP_RES_EOF', 'ERROR_STREAM_EDGE_NOT_START',
              # turned into a 403 / 404 reply
              'ERROR_STREAM_PUBLISH_NOT_SUPPORT', 'ERROR_STREAM_SOURCE_NOT_EXITS')
RT = {}

# calls whose failure ends something else than the caller's own operation
SWALLOW_OK = {
    'sps::BitContext::acquire': 'a failed acquire used as the condition of a loop is how a parser finds the end of its data',
    'sps::IReader::read_line': 'end of the configuration file; the block structure is checked right after',
    'sps::ICoFactory::start': 'the accept loop goes on with the next connection when one coroutine cannot be started',
    'sps::IPhaseHandler::handler': 'phase handlers answer with phase codes, of which success-without-continue ends the request',
    'sps::StreamEdgeEnter::start_edge': 'play answers with its own code',
}
UNTESTED_OK = {
    'sps::ICoHandler::handler': 'the entry point of a coroutine has nobody to report to',
}


# how the functions of the C libraries say that they failed
NEG = ('bind', 'listen', 'socket', 'setsockopt', 'getsockname', 'srt_accept', 'srt_bind', 'srt_bind_acquire', 'srt_connect',
       'srt_connect_bind', 'srt_create_socket', 'srt_listen', 'srt_sendmsg', 'srt_bstats',
       'st_connect', 'st_recvfrom', 'st_recvmsg', 'st_sendto',
       'st_sendmsg', 'st_write', 'st_writev', 'st_init', 'av_packet_ref', 'av_read_frame', 'av_write_frame',
       'av_interleaved_write_frame', 'avcodec_parameters_copy', 'avcodec_parameters_to_context',
       'avformat_alloc_output_context2', 'avformat_find_stream_info', 'avformat_open_input', 'avformat_write_header',
       'AMF_Decode', 'AMF3_Decode')
# (allocations that fail only when memory runs out are out of scope)
NULLS = ('st_netfd_open_socket', 'st_accept', 'st_thread_create', 'avcodec_alloc_context3', 'avformat_new_stream')
POS1 = ('SSL_use_RSAPrivateKey_file', 'SSL_use_certificate_file', 'SSL_check_private_key', 'SSL_do_handshake', 'SSL_read', 'SSL_write',
        'BIO_write', 'inet_pton', 'st_read', 'srt_recv')
NZ = ('http_parser_parse_url',)
FULL = ('st_read_fully',)      # short when the peer closes: worked only when the whole size came
EXT = {}
for _l, _k in ((NEG, 'neg'), (NULLS, 'null'), (POS1, 'pos1'), (NZ, 'nz'), (FULL, 'full')):
    for _n in _l:
        EXT[_n] = _k


def ext_state(s, name, res, args=()):
    """True: the call is known to have worked, False: known to have failed, None: not known"""
    k = EXT[name]
    if k == 'null':
        t = s.truth(flow.eqatom(res, NULL))
        return None if t is None else not t
    if k == 'full':
        t = s.truth(flow.eqatom(res, args[2])) if len(args) > 2 else None
        return True if t is True else (False if t is False else None)
    if k == 'nz':
        return s.truth(('eq', res, ZERO))
    lo, hi = s.bounds(res)
    if lo is None:
        lo, hi = s.bounds(('tr', 'i32', res))      # transfers stay below 2^31
    if k == 'neg':
        if (lo is not None and lo >= 0) or (lo is not None and lo >= -1 and s.truth(('eq', res, flow.I(-1))) is False) \
                or s.truth(('eq', res, flow.I(-1))) is False:
            return True
        if hi is not None and hi < 0:
            return False
    if k == 'pos1':
        if lo is not None and lo >= 1:
            return True
        if hi is not None and hi <= 0:
            return False
        if s.truth(('eq', res, flow.I(1))) is False and s.truth(('eq', res, ZERO)) is False and hi is not None and hi <= 1:
            return False
    return None


def is_err(t):
    return t.replace('sps::', '').replace('const ', '') == 'error_t'


def error_codes(prog, names):
    txt = ''
    for d, _, fs in os.walk(os.path.join(prog.repo, 'src')):
        for f in sorted(fs):
            if f.endswith(('.hpp', '.h')):
                txt += open(os.path.join(d, f), errors='replace').read() + '\n'
    out = []
    for n in names:
        m = re.search(r'^\s*#define\s+%s\s+\(?(-?\d+)\)?' % n, txt, re.M)
        if not m:
            raise AnalysisError('error code %s not found' % n)
        out.append(int(m.group(1)))
    return out


def status(s, e):
    """None when e is no tracked call, else (name, True/False/None)"""
    if e[0] != 'call':
        return None
    if e[2] in RT:
        return RT[e[2]], s.truth(('eq', e[5], ZERO)), True
    if e[1] in EXT:
        return e[1], ext_state(s, e[1], e[5], vargs(e)), False
    return None


def open_events(s):
    """tracked calls of the path that are not known to have worked and were not made good by a later
    call of the same place (a retry) or by their fallback"""
    out = []
    for e in s.ev:
        q = status(s, e)
        if q is None:
            continue
        name, t, err = q
        if t is True:
            fb = FALLBACK.get(name, ())
            out = [o for o in out if not (o[1] == name and o[0][6:9] == e[6:9]) and o[1] not in fb]
        else:
            out.append((e, name, t, err))
    return out


def pending(s):
    return frozenset((e[5], t, None if err else name) for e, name, t, err in open_events(s))


def make_merge(ints):
    """join of paths that agree on the error answers still open and on the integer locals"""
    def merge(x, sts):
        groups, order = {}, []
        for s in sts:
            vals = []
            for k in s.store:
                if k[0] == 'L' and k[2] in ints:
                    v = s.store[k]
                    if v[0] == 'r' and s.const_of(v) == ZERO:
                        v = ZERO
                    vals.append((k, v if v[0] in ('i', 'r') else ('?',)))
            k = (pending(s), frozenset(vals), frozenset(s.aux.items()))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        for k in order:
            g = groups[k]
            out.append(g[0] if len(g) == 1 else join(x, g, k[0]))
        return out
    return merge


def set_failed(s, name, res):
    if ext_state(s, name, res) is False:
        return s
    k = EXT[name]
    a = {'null': (flow.eqatom(res, NULL), True), 'nz': (('eq', res, ZERO), False),
         'neg': (('le', flow.add(res, flow.I(1))), True), 'pos1': (('le', res), True)}[k]
    return s.assume(*a)


def join(x, g, key):
    s = g[0].copy()
    rest = g[1:]
    for k in list(s.store):
        v = s.store[k]
        if any(o.store.get(k) != v for o in rest):
            if all(o.store.get(k) is not None and o.const_of(o.store[k]) == ZERO for o in g):
                s.store[k] = ZERO
                continue
            s.store[k] = ('h', 'join', next(x.cnt))
            if v in flow.TT:
                flow.TT[s.store[k]] = flow.TT[v]
    for o in rest:
        for k in o.store:
            if k not in s.store:
                s.store[k] = ('h', 'join', next(x.cnt))
        for k, n in o.ver.items():
            if n > s.ver.get(k, 0):
                s.ver[k] = n
    s.eq = {k: v for k, v in s.eq.items() if all(o.eq.get(k) == v for o in rest)}
    s.ne = {k: v for k, v in s.ne.items() if all(o.ne.get(k) == v for o in rest)}
    le = [set(o.le) for o in rest]
    s.le = tuple(t for t in s.le if all(t in q for q in le))
    fa = [set(o.facts) for o in rest]
    s.facts = tuple(t for t in s.facts if all(t in q for q in fa))
    op = {e for e, _, _, _ in open_events(g[0])}
    s.ev = tuple(e for e in s.ev if status(g[0], e) is None or e in op)
    for q in key:
        if q[1] is False and q[2] is None:
            s = s.assume(('eq', q[0], ZERO), False)
        elif q[1] is False and EXT[q[2]] != 'full':
            s = set_failed(s, q[2], q[0])
    return s


def mentioned(s, t):
    for c in (s.eq, s.ne):
        if any(contains(k, t) for k in c):
            return True
    return any(contains(k, t) for k in s.le) or any(contains(a, t) for a, _ in s.facts if isinstance(a, tuple))


def fails(s, v, good):
    """does the path answer something that is surely no success?"""
    return all(s.truth(flow.eqatom(v, flow.I(g))) is False for g in good)


def hands_out(s, v):
    return v != NULL and (flow.is_ptr(v) or v[0] == 'new') and s.truth(flow.eqatom(v, NULL)) is not True


def executor(f, **kw):
    x = flow.Exec(PROG, **(kw or dict(max_depth=0)))
    ints = {v['id'] for n in walk(f['body']) if n.get('k') == 'decl' for v in n['vars'] if v['t'] in ('i32', 'error_t')}
    x.merge = make_merge(ints)
    return x


def analyse(u):
    f = PROG.funcs[u]
    x = executor(f)
    try:
        paths = x.run(f)
    except AnalysisError as ex:
        return u, None, str(ex), 0
    ferr = is_err(f['rett'])
    sites, out = set(), {}
    for n, ds, nm in callees(PROG, f):
        if n.get('u') in RT:
            sites.add((f['file'], n.get('l'), RT[n['u']], n['u']))
        elif nm in EXT and n.get('obj') is None:
            sites.add((f['file'], n.get('l'), nm, None))
    good = (0, 1) if phase(f) else (0,)
    for s, v in paths:
        for e, name, t, err in open_events(s):
            res = e[5]
            if not err:
                key = (e[7], e[6], name, None)
                if v == res or contains(v, res) or ferr and fails(s, v, good):
                    continue
                bad = None
                if ferr:
                    bad = 'ext'
                elif t is None and not mentioned(s, res):
                    bad = 'ext'
                elif t is False and hands_out(s, v):
                    bad = 'object'
                if bad and (key, bad) not in out:
                    out[(key, bad)] = (show(v)[:80], witness(s, v, 30))
                continue
            key = (e[7], e[6], name, e[2])
            bad = None
            if t is False:
                c = s.const_of(res)
                if c is not None and c[0] == 'i' and c[1] in CODES:
                    continue
                if ferr and not fails(s, v, good) and v != res:
                    bad = 'swallowed'
                elif hands_out(s, v):
                    bad = 'object'
                elif f['rett'] == 'b':
                    if v != flow.I(0):
                        bad = 'true'
            elif not (v == res or contains(v, res)) and not (ferr and fails(s, v, good)):
                bad = 'untested'
            if bad and (key, bad) not in out:
                out[(key, bad)] = (show(v)[:80], witness(s, v, 30))
    for n, fn, s, again in x.iter_ends:
        if not again or fn['u'] != u:
            continue
        for e, name, t, err in open_events(s):
            if t is not None or not err and mentioned(s, e[5]):
                continue
            key = (e[7], e[6], name, e[2] if err else None)
            bad = 'untested' if err else 'ext'
            if (key, bad) not in out:
                out[(key, bad)] = ('the next iteration', witness(s, None, 30))
    return u, sites, out, len(paths)


def phase(f):
    """does f override IPhaseHandler::handler (whose 0 and 1 both mean success)?"""
    w, seen = [f['u']], set()
    while w:
        u = w.pop()
        if u in seen:
            continue
        seen.add(u)
        if RT.get(u) == 'sps::IPhaseHandler::handler':
            return True
        g = PROG.funcs.get(u)
        if g:
            w += g.get('over', [])
    return False


ACQUIRE = 'sps::BitContext::acquire'


def in_loop_condition(f, cu, line):
    for n in walk(f['body']):
        if n.get('k') in ('while', 'do', 'for') and n.get('c'):
            if any(m.get('u') == cu and m.get('l') == line for m in walk(n['c'])):
                return True
    return False


class Infallible:
    def __init__(self, prog):
        self.p, self.c = prog, {}

    def __call__(self, u):
        if u in self.c:
            return self.c[u]
        self.c[u] = False
        impls = self.p.impls(u)
        ok = bool(impls)
        for f in impls:
            x = executor(f)
            try:
                paths = x.run(f)
            except AnalysisError:
                ok = False
                break
            for s, v in paths:
                if v == ZERO or s.truth(flow.eqatom(v, ZERO)) is True:
                    continue
                c = [e for e in s.ev if e[0] == 'call' and e[5] == v]
                if c and c[0][2] in RT and self(c[0][2]):
                    continue
                ok = False
            if not ok:
                break
        self.c[u] = ok
        return ok


def decided_by_expansion(f, cu):
    """with the callee expanded: every path on which it failed makes the caller fail"""
    x = executor(f, inline=lambda g, fr: g['u'] == cu, max_depth=1)
    try:
        paths = x.run(f)
    except AnalysisError:
        return False
    n = 0
    good = (0, 1) if phase(f) else (0,)
    for s, v in paths:
        for e in s.ev:
            if e[0] == 'leave' and e[2] == cu:
                n += 1
                if e[3] == ZERO or s.truth(flow.eqatom(e[3], ZERO)) is True:
                    continue
                if not fails(s, v, good):
                    return False
            if e[0] == 'call' and e[2] == cu:
                return False
    return n > 0


def p02(ctx):
    global PROG
    p = PROG = ctx.prog
    ctx.rule('acted-on', 'for every call in the repository to a function that answers with error_t, on every path of the '
             'caller the answer is tested against SUCCESS or becomes (part of) what the caller returns; a callee that '
             'returns SUCCESS on all its own paths may be ignored')
    ctx.rule('not-swallowed', 'on no path is an answer known to be a failure while the caller returns SUCCESS (error_t), '
             'an object (factories) or true (predicates)')
    RT.clear()
    for f in p.funcs.values():
        if is_err(f['rett']):
            RT[f['u']] = f['f']
    for r in p.records.values():
        for m in r['methods']:
            if is_err(m['rett']):
                RT.setdefault(m['u'], r['name'] + '::' + m['n'])
    if len(RT) < 150:
        raise AnalysisError('only %d error_t functions found' % len(RT))
    CODES.clear()
    CODES.update(error_codes(p, CODE_NAMES))
    todo = []
    for u, f in p.funcs.items():
        if any(n.get('u') in RT or nm in EXT for n, ds, nm in callees(p, f)):
            todo.append(u)
    todo.sort(key=lambda u: -sum(1 for _ in walk(p.funcs[u]['body'])))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(analyse, todo, chunksize=1)
    inf = Infallible(p)
    nsites = set()
    for u, sites, out, n in res:
        f = p.funcs[u]
        if sites is None:
            raise AnalysisError('%s: %s' % (f['f'], out))
        ctx.analysed.add(f['f'])
        ctx.paths += n
        bad = {}
        for (key, kind), (v, w) in out.items():
            file, line, name, cu = key
            if kind == 'ext' or cu is None:
                if (name, short(f['f'])) in EXT_OK:
                    continue
            elif kind == 'untested':
                if name in UNTESTED_OK or inf(cu) or decided_by_expansion(f, cu):
                    continue
            elif inf(cu) or name in SWALLOW_OK and (name != ACQUIRE or in_loop_condition(f, cu, line)):
                continue
            bad.setdefault(key, []).append((kind, v, w))
        for key in sorted(sites):
            file, line, name, cu = key
            nsites.add(key)
            what = 'the answer of %s in %s' % (short(name), short(f['f']))
            if key not in bad:
                ctx.ok('acted-on', '%s (%s:%s)' % (what, file, line))
                continue
            for kind, v, w in bad[key]:
                msg = {'ext': 'the failure answer of %s is not excluded when the caller answers %s',
                       'untested': 'the error answer of %s is neither tested nor passed on (the caller answers %s)',
                       'swallowed': 'a failure of %s is reported as success (%s)',
                       'object': 'a failure of %s still hands out an object (%s)',
                       'true': 'a failure of %s still answers true (%s)'}[kind] % (short(name), v)
                ctx.fail('acted-on' if kind == 'untested' else 'not-swallowed', what, file, line, f['f'], msg,
                         key='%s|%s|%s' % (kind, f['f'], name), witness=w)
    if len(nsites) < 200:
        raise AnalysisError('only %d calls of error_t functions found' % len(nsites))
    ctx.notes['exempt_callees'] = ['%s: %s' % kv for kv in sorted({**SWALLOW_OK, **UNTESTED_OK}.items())]
