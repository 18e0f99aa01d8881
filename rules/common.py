"""helpers shared by the rules"""
import flow
from flow import ZERO, NULL, I, show, showev, subterms
from program import AnalysisError, walk

# externals of the coroutine library (and the waits built on it) at which another
# coroutine may run
YIELDS = {'st_read', 'st_read_fully', 'st_read_resid', 'st_readv', 'st_readv_resid', 'st_write', 'st_write_resid',
          'st_writev', 'st_writev_resid', 'st_recvfrom', 'st_sendto', 'st_recvmsg', 'st_sendmsg', 'st_accept',
          'st_connect', 'st_open', 'st_poll', 'st_netfd_poll', 'st_sleep', 'st_usleep', 'st_cond_wait',
          'st_cond_timedwait', 'st_thread_join', 'st_mutex_lock', 'st_thread_yield',
          # libav calls that run the program's own I/O callbacks
          'avformat_open_input', 'avformat_find_stream_info', 'av_read_frame', 'avformat_write_header',
          'av_write_frame', 'av_interleaved_write_frame', 'av_write_trailer', 'avio_flush'}


def short(f):
    return f[5:] if f.startswith('sps::') else f


def line_of(e):
    """(file, line, func) of an event"""
    k = e[0]
    if k == 'call':
        return e[7], e[6], e[8]
    if k in ('st',):
        return e[4], e[3], e[5]
    if k in ('mut',):
        return e[5], e[4], e[6]
    if k == 'at':
        return e[4], e[3], e[5]
    if k == 'q':
        return e[6], e[5], e[7]
    if k in ('enter',):
        return e[6], e[5], e[7]
    if k in ('make', 'new'):
        return e[5], e[4], e[6]
    if k == 'ctor':
        return e[4], e[3], e[5]
    if k == 'del':
        return e[4], e[3], e[5]
    return '?', 0, '?'


def witness(s, v=None, n=60):
    out = []
    if s.facts:
        out.append('when ' + flow.showfacts(s)[:1500])
    for e in s.ev:
        if e[0] in ('enter', 'leave', 'q'):
            continue
        out.append(showev(e)[:300])
    if v is not None:
        out.append('returns ' + show(v))
    return out[-n:]


def vargs(e):
    """argument values of a call event (references give the referenced value)"""
    return [a[2] if a[0] == 'ref' and len(a) == 3 else a for a in e[4]]


def callees(prog, f):
    """(node, [definitions], external name or None) for every call in f, lambdas included"""
    for n in walk([f.get('inits', []), f['body']]):
        if n.get('k') == 'call' or n.get('k') == 'ctor':
            u = n.get('u')
            if u is None:
                yield n, [], None
                continue
            if n.get('virt') and not n.get('nonvirt'):
                yield n, prog.impls(u), n.get('f')
            else:
                g = prog.funcs.get(u)
                yield n, [g] if g else [], n.get('f')


_yc = {}


def may_yield(prog):
    """usr of repository functions that may reach a coroutine switch, and a predicate on call events"""
    if id(prog) in _yc:
        return _yc[id(prog)]
    graph, y = {}, set()
    for u, f in prog.funcs.items():
        s = set()
        for n, ds, name in callees(prog, f):
            if name in YIELDS:
                y.add(u)
            s |= {d['u'] for d in ds}
        graph[u] = s
    ch = True
    while ch:
        ch = False
        for u, s in graph.items():
            if u not in y and s & y:
                y.add(u)
                ch = True
    if len(y) < 20:
        raise AnalysisError('only %d functions that may switch coroutines were found' % len(y))

    def ev_yields(e):
        if e[0] != 'call':
            return False
        if e[1] in YIELDS:
            return True
        if e[2] is None:
            return False
        if e[2] in y:
            return True
        return any(d['u'] in y for d in prog.impls(e[2]))
    _yc[id(prog)] = (y, ev_yields)
    return _yc[id(prog)]


def under_field(loc, q):
    """is loc (or a prefix of it) a field named q?"""
    while True:
        if loc[0] == 'F':
            if loc[2] == q:
                return True
            loc = loc[1]
        elif loc[0] == 'I':
            loc = loc[1]
        else:
            return False


class Registry:
    """operations on one map-typed field, read off the events of a path"""

    def __init__(self, prog, cls, fields=None):
        self.q = set()
        for c in prog.bases(cls):
            r = prog.records.get(c)
            for fl in (r or {}).get('fields', []):
                if 'std::map<' in fl['t'] or 'std::unordered_map<' in fl['t']:
                    self.q.add(fl['q'])
        if not self.q:
            raise AnalysisError('%s: no map member found' % cls)

    def mine(self, loc):
        return loc[0] == 'F' and loc[2] in self.q

    def ops(self, ev):
        """[(index, op, key, extra)] op in lookup/insert/erase/clear"""
        out = []
        for i, e in enumerate(ev):
            if e[0] == 'q' and e[1] in ('find', 'count', 'at', 'lower_bound') and self.mine(e[2]):
                out.append((i, 'lookup', e[3][0] if e[3] else None, e[4]))
            elif e[0] == 'st' and e[1][0] == 'I' and self.mine(e[1][1]):
                out.append((i, 'insert', e[1][2], e[2]))
            elif e[0] == 'mut' and self.mine(e[2]):
                if e[1] in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
                    k, v = None, None
                    a = e[3]
                    if e[1] in ('insert',) and a and a[0][0] in ('mk', 'call', 'ilv'):
                        m = a[0][2] if a[0][0] == 'mk' else (a[0][2:] if a[0][0] == 'call' else a[0][1])
                        if len(m) == 2:
                            k, v = m
                    elif len(a) >= 2:
                        k, v = a[0], a[1]
                    out.append((i, 'insert', k, v))
                elif e[1] == 'erase':
                    k = e[3][0] if e[3] else None
                    if k is not None and k[0] == 'call' and k[1] == 'find':
                        k = k[3]
                    out.append((i, 'erase', k, None))
                elif e[1] == 'clear':
                    out.append((i, 'clear', None, None))
        return out

    def absent(self, s, t):
        """does path s know that lookup result t found nothing (or a null entry)?"""
        if t[0] == 'call' and t[1] == 'find':
            c = t[2]
            if s.truth(flow.eqatom(t, ('call', 'end', c))) is True:
                return True
            for x in s.eq:
                if s.eq[x] == NULL and any(y == t for y in subterms(x)):
                    return True
            return False
        if t[0] == 'call' and t[1] == 'count':
            return s.truth(('eq', t, ZERO)) is True
        return False


def callers(prog):
    out = {}
    for u, f in prog.funcs.items():
        for n, ds, name in callees(prog, f):
            for d in ds:
                out.setdefault(d['u'], set()).add(u)
    return out


def entry_roots(prog, seeds, stop):
    """functions from which the seed functions are entered: walk up the call graph until a function
    that satisfies stop(f) or has no callers"""
    up = callers(prog)
    roots, seen, work = {}, set(), list(seeds)
    while work:
        u = work.pop()
        if u in seen:
            continue
        seen.add(u)
        f = prog.funcs[u]
        if stop(f) or not up.get(u):
            roots[u] = f
        else:
            work += list(up[u])
    return sorted(roots.values(), key=lambda f: (f['file'], f['l']))


def is_handler(prog):
    """overrides of the phase handler / coroutine entry virtuals"""
    base = set()
    for r in prog.records.values():
        if r['name'] in ('sps::IPhaseHandler', 'sps::ICoHandler'):
            for m in r['methods']:
                base.add(m['u'])
    if len(base) < 2:
        raise AnalysisError('handler interfaces not found')

    def f(fn):
        w = list(fn.get('over', []))
        while w:
            u = w.pop()
            if u in base:
                return True
            g = prog.funcs.get(u)
            if g:
                w += g.get('over', [])
        return False
    return f


class Relevance:
    """inline predicate: expand a callee if it can touch one of the given fields/functions, or if it is
    small (its whole call closure has at most `small` nodes)"""

    def __init__(self, prog, fields=(), funcs=(), small=400, never=()):
        self.p = prog
        self.small = small
        self.size, self.sub, hit = {}, {}, set()
        for u, f in prog.funcs.items():
            n = 0
            for x in walk([f.get('inits', []), f['body']]):
                n += 1
                k = x.get('k')
                if k == 'mem' and x.get('q') in fields:
                    hit.add(u)
                elif k == 'call' and x.get('f') in funcs:
                    hit.add(u)
            if f['f'] in funcs:
                hit.add(u)
            self.size[u] = n
            self.sub[u] = {d['u'] for _, ds, _ in callees(prog, f) for d in ds}
        up = {}
        for u, s in self.sub.items():
            for v in s:
                up.setdefault(v, set()).add(u)
        work = list(hit)
        while work:
            u = work.pop()
            for c in up.get(u, ()):
                if c not in hit:
                    hit.add(c)
                    work.append(c)
        self.hit = hit
        self.never = set(never)
        self._c = {}

    def closure(self, u):
        if u not in self._c:
            seen, work, n = set(), [u], 0
            while work:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                n += self.size.get(v, 0)
                if n > 100000:
                    break
                work += list(self.sub.get(v, ()))
            self._c[u] = n
        return self._c[u]

    def __call__(self, f, fr=None):
        if f['f'] in self.never:
            return False
        u = f['u']
        if u not in self.size:
            return True
        return u in self.hit or self.closure(u) <= self.small


def pure_method(name=None):
    """model: a call is a pure function of the object and arguments"""
    def m(x, e, fr, s):
        out = []
        if e.get('obj') is not None:
            base = x.ev(e['obj'], fr, s) if e.get('arrow') else [(a, flow.addr(l)) for a, l in x.lv(e['obj'], fr, s)]
        else:
            base = [(s, None)]
        for a, ov in base:
            if ov is not None and ov[0] == 'ref':
                ov = x.load(a, ov[1], e['obj']['t'])
            for b, args in x.evargs(e, fr, a):
                av = tuple(x.load(b, q[1], '?') if q[0] == 'ref' else q for q in args)
                t = ('call', name or e['f'], ov) + av
                flow.TT.setdefault(t, flow.unref(e['t']))
                out.append((b, t))
        return out
    return m


def pure_methods(prog, cls, prefix='is_'):
    """models for the const-like query methods of a class"""
    out = {}
    for c in [cls]:
        for f in prog.funcs.values():
            if f.get('cls') == c and f['f'].rsplit('::', 1)[-1].startswith(prefix):
                out[f['f']] = pure_method(f['f'])
    if not out:
        raise AnalysisError('%s: no %s* methods' % (cls, prefix))
    return out


def event_only(name=None):
    """model: record the call, assume it leaves the state of the analysed object alone"""
    def m(x, e, fr, s):
        out = []
        if e.get('obj') is not None:
            base = x.ev(e['obj'], fr, s) if e.get('arrow') else [(a, flow.addr(l)) for a, l in x.lv(e['obj'], fr, s)]
        else:
            base = [(s, None)]
        for a, ov in base:
            if ov is not None and ov[0] == 'ref':
                ov = x.load(a, ov[1], e['obj']['t'])
            for b, args in x.evargs(e, fr, a):
                vals = tuple(('ref', q[1], x.load(b, q[1], '?')) if q[0] == 'ref' else q for q in args)
                n = next(x.cnt)
                v = ('r', e['f'], n)
                flow.TT[v] = flow.unref(e['t'])
                b = b.copy()
                b.ev = b.ev + (('call', e['f'], e.get('u'), ov, vals, v, e.get('l'), fr.fn['file'], fr.fn['f'], ()),)
                out.append((b, v))
        return out
    return m
