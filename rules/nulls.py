"""P13: a result that may be absent is not used before it was found to be there."""
import flow
from flow import NULL, ZERO, I, sub, eqatom, show, subterms
from program import AnalysisError, walk
from rules import common as C

EXT = {'getenv', 'strchr', 'strrchr', 'strstr', 'strpbrk', 'strtok', 'strtok_r', 'memchr', 'fopen', 'fdopen', 'popen', 'opendir', 'realpath',
       'st_netfd_open', 'st_netfd_open_socket', 'st_accept', 'st_open', 'st_thread_create', 'st_cond_new', 'st_mutex_new',
       'gethostbyname', 'localtime', 'gmtime', 'inet_ntop', 'inet_ntop', 'malloc', 'calloc', 'realloc',
       'SSL_get_servername', 'SSL_get_peer_certificate', 'SSL_CTX_new', 'SSL_new', 'BIO_new',
       'av_dict_get', 'avformat_new_stream', 'av_guess_format', 'av_find_input_format', 'avcodec_find_decoder', 'avcodec_find_encoder'}
# memory exhaustion is not a matter of input
OOM = {'malloc', 'calloc', 'realloc', 'SSL_CTX_new', 'SSL_new', 'BIO_new', 'st_cond_new', 'st_mutex_new'}


# arguments of outside functions that must be there (positions)
NEEDS = {}
for n, a in (('strlen strdup atoi atol atoll atof strtol strtoul strtoll strtoull strtod puts perror fclose fflush feof ferror', (0,)),
             ('strcmp strncmp strcasecmp strncasecmp strcoll strstr strcpy strncpy strcat strncat memcpy memmove strpbrk strspn strcspn', (0, 1)),
             ('strchr strrchr memset fgets', (0,)), ('fread fwrite', (0, 3)), ('fprintf fputs_ fputc_', (0,)),
             ('st_netfd_fileno st_netfd_close st_netfd_free st_netfd_poll st_read st_read_fully st_write st_writev st_readv st_recvfrom '
              'st_sendto st_recvmsg st_sendmsg st_accept st_connect st_cond_wait st_cond_timedwait st_cond_signal st_cond_broadcast '
              'st_cond_destroy st_mutex_lock st_mutex_unlock st_mutex_destroy st_thread_join st_thread_interrupt', (0,)),
             ('SSL_read SSL_write SSL_accept SSL_connect SSL_set_bio SSL_free_ SSL_set_fd SSL_do_handshake BIO_read BIO_write', (0,)),
             ('getaddrinfo_', (0,))):
    for k in n.split():
        NEEDS[k] = a


def callname(e):
    return (e.get('f') or '').split('(')[0]


class X(flow.Exec):
    """notes every place where a pointer is followed or handed to something that follows it"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.obl = []
        self.pas = []
        self.res = {}
        self.arith = []
        self.here = None
        self.on_deref = self.note

    def note(self, s, b, e, fr):
        self.obl.append((s, b, e, fr))

    def binop(self, op, a, b, e, s):
        if op in ('+', '-') and self.here is not None:
            for q, n in ((a, 'a'), (b, 'c')):
                if isinstance(q, tuple) and (is_null(q) or q in self.res) and pointer((e.get(n) or {}).get('t')):
                    self.arith.append((s, q, e, self.here))
        return super().binop(op, a, b, e, s)

    def e_bin(self, e, fr, s):
        self.here = fr
        return super().e_bin(e, fr, s)

    def e_asg(self, e, fr, s):
        self.here = fr
        return super().e_asg(e, fr, s)

    def evargs(self, e, fr, s, skip=0):
        out = super().evargs(e, fr, s, skip)
        for y, vs in out:
            vals = [self.load(y, v[1], '?') if v[0] == 'ref' else v for v in vs]
            self.pas.append((y, e, vals, fr))
        return out

    def unknown(self, e, f, fr, s, ov, args):
        out = super().unknown(e, f, fr, s, ov, args)
        for y, v in out:
            if isinstance(v, tuple) and v and v[0] == 'r':
                self.res[v] = (f, e.get('u'))
        return out


def merge(x, sts):
    """join of paths that agree on which pointers are there and on the small values of the locals"""
    groups, order = {}, []
    for s in sts:
        k = (frozenset((a, v) for a, v in s.eq.items() if NULL in (a, v)),
             frozenset(a for a, v in s.ne.items() if NULL in v),
             frozenset((l, v) for l, v in s.store.items() if l[0] == 'L' and (v[0] in ('i', 'null', 'new', 'p', 'empty') or v in x.res
                                                                              and pointer(flow.TT.get(v)))),
             frozenset((a, str(v)) for a, v in s.aux.items()))
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append(s)
    return [groups[k][0] if len(groups[k]) == 1 else join(x, groups[k]) for k in order]


def join(x, g):
    s = g[0].copy()
    rest = g[1:]
    keys = set(s.store)
    for o in rest:
        keys |= set(o.store)
    for k in keys:
        v = s.store.get(k)
        if any(o.store.get(k) != v for o in rest):
            s.store[k] = ('h', 'join', next(x.cnt))
    for o in rest:
        for k, n in o.ver.items():
            if n > s.ver.get(k, 0):
                s.ver[k] = n
    s.eq = {k: v for k, v in s.eq.items() if all(o.eq.get(k) == v for o in rest)}
    s.ne = {k: v for k, v in s.ne.items() if all(o.ne.get(k) == v for o in rest)}
    le = [set(o.le) for o in rest]
    s.le = tuple(t for t in s.le if all(t in q for q in le))
    fa = [set(o.facts) for o in rest]
    s.facts = tuple(t for t in s.facts if all(t in q for q in fa))
    return s


def src(prog):
    return [f for f in prog.funcs.values() if f.get('body') and f['file'].startswith('src/')]


def pointer(t):
    t = t or ''
    while t[:2] == 'r:' or t[:3] == 'cr:':
        t = t.split(':', 1)[1]
    if t.startswith('c') and t[1:3] in ('p:', 'R:'):
        t = t[1:]
    return t.startswith('p:') or t.startswith(('R:std::shared_ptr', 'R:std::unique_ptr', 'R:std::weak_ptr')) or t.startswith('st_')


def is_null(v):
    return v == NULL or v[0] == 'empty' and ('_ptr' in str(v[1]) or str(v[1]).startswith('p:'))


# searches whose answer is a member that no configuration need have set: their answer may be null though no path says so
SEARCH = {'sps::HostModulesRouter::find_host': 'no host block may be meant'}


class Nulls:
    def __init__(self, prog):
        self.prog = prog
        self.null = {}          # function -> why it may answer null
        self.needs = {}         # function -> {parameter: where it is followed}
        self.fs = sorted(src(prog), key=lambda f: (f['file'], f['l']))
        self.runs = {}
        for f in self.fs:
            x = X(prog, max_depth=0)
            x.merge = merge
            self.runs[f['u']] = (x, x.run(f))
        self.answers()
        self.wants()

    def answers(self):
        for f in self.fs:
            if f['f'] in SEARCH:
                self.null[f['u']] = (f['f'], SEARCH[f['f']])
        again = True
        while again:
            again = False
            for f in self.fs:
                if f['u'] in self.null or not pointer(f.get('ret')):
                    continue
                x, out = self.runs[f['u']]
                for s, v in out:
                    w = self.why(x, s, v)
                    if w:
                        self.null[f['u']] = (f['f'], w)
                        again = True
                        break

    def wants(self):
        for f in self.fs:
            x = self.runs[f['u']][0]
            ps = {('p', p['n']): i for i, p in enumerate(f['params']) if pointer(p['t'])}
            d = self.needs.setdefault(f['u'], {})
            for s, b, e, fr in x.obl if ps else ():
                if b in ps and s.truth(eqatom(b, NULL)) is not False and ps[b] not in d:
                    d[ps[b]] = '%s:%s' % (f['f'].replace('sps::', ''), e.get('l'))
        self.members()
        again = True
        while again:
            again = False
            for f in self.fs:
                x = self.runs[f['u']][0]
                ps = {('p', p['n']): i for i, p in enumerate(f['params']) if pointer(p['t'])}
                d = self.needs[f['u']]
                for s, e, vals, fr in x.pas if ps else ():
                    for i, where in self.wanted(e):
                        if i < len(vals) and vals[i] in ps and ps[vals[i]] not in d and s.truth(eqatom(vals[i], NULL)) is not False:
                            d[ps[vals[i]]] = where if ':' in where else '%s:%s' % (f['f'].replace('sps::', ''), e.get('l'))
                            again = True

    def members(self):
        """a constructor needs what it keeps in a member that a method follows untested"""
        follow = {}
        for f in self.fs:
            for s, b, e, fr in self.runs[f['u']][0].obl:
                if b[0] == 'ld' and b[2] == 0 and b[1][0] == 'F' and s.truth(eqatom(b, NULL)) is not False:
                    follow.setdefault(b[1][2], '%s:%s' % (f['f'].replace('sps::', ''), e.get('l')))
        for f in self.fs:
            if not f.get('isctor'):
                continue
            ps = {('p', p['n']): i for i, p in enumerate(f['params']) if pointer(p['t'])}
            for s, _ in self.runs[f['u']][1] if ps else ():
                for k, v in s.store.items():
                    if k[0] == 'F' and k[1] == ('D', ('this',)) and v in ps and k[2] in follow and s.truth(eqatom(v, NULL)) is not False:
                        self.needs[f['u']].setdefault(ps[v], follow[k[2]])

    def wanted(self, e):
        """[(argument position, where it is followed)]"""
        n = callname(e)
        if n in NEEDS:
            return [(i, n) for i in NEEDS[n]]
        if n.startswith('std::') and 'basic_string' in n + str(e.get('t')):
            pt = e.get('pt') or []
            last = n.split('::')[-1]
            if pt and pt[0] in ('p:ci8', 'p:i8', 'cp:i8') and (e['k'] == 'ctor' or last in ('operator=', 'assign', 'append', 'operator+=',
                                                                              'basic_string', 'compare', 'find')):
                return [(0, 'std::string')]
        u = e.get('u')
        out = []
        for g in self.targets(u):
            out += list(self.needs.get(g, {}).items())
        return out

    def why(self, x, s, v):
        """None, or why the value may be absent on this path"""
        if v is None or not isinstance(v, tuple) or not v:
            return None
        if is_null(v):
            return 'null'
        q = s.truth(eqatom(v, NULL))
        if q is False:
            return None
        if q is True:
            return 'null'
        return self.kind(x, v)

    def kind(self, x, v):
        if v[0] == 'r':
            name, u = x.res.get(v, (v[1], None))
            if name in EXT and name not in OOM:
                return name + ' answers null when there is none'
            for g in self.targets(u):
                if g in self.null:
                    return self.null[g][0].replace('sps::', '') + ' may answer null'
        if v[0] in ('call', 'mr') and v[1] == 'lock':
            return 'the object may be gone'
        if v[0] == 'dyn' and len(v) > 2 and isinstance(v[2], tuple):
            return self.kind(x, v[2])
        return None

    def targets(self, u):
        if not u:
            return []
        return [g['u'] for g in self.prog.impls(u)] + [u]


_size = {}


def size(g):
    if g['u'] not in _size:
        _size[g['u']] = sum(1 for n in walk(g['body'])) if g.get('body') else 10 ** 6
    return _size[g['u']]


def sites(N, f, x):
    """places in f where something absent may be followed: {(line, what): (why, state)}; every place seen"""
    bad, seen = {}, set()
    for s, b, e, fr in x.obl:
        if fr.fn['u'] != f['u'] or not isinstance(b, tuple) or b == ('this',):
            continue
        k = (e.get('l') or 0, 'followed')
        seen.add(k)
        w = N.why(x, s, b)
        if w:
            bad.setdefault(k, (w, s))
    for s, b, e, fr in x.arith:
        if fr.fn['u'] == f['u']:
            k = (e.get('l') or 0, 'reckoned with')
            seen.add(k)
            w = N.why(x, s, b)
            if w:
                bad.setdefault(k, (w, s))
    for s, e, vals, fr in x.pas:
        if fr.fn['u'] != f['u']:
            continue
        for i, where in N.wanted(e):
            if i >= len(vals) or not isinstance(vals[i], tuple):
                continue
            k = (e.get('l') or 0, 'handed to %s' % where)
            seen.add(k)
            w = N.why(x, s, vals[i])
            if w:
                bad.setdefault(k, (w, s))
    return bad, seen


def everywhere(N, x):
    """places where something absent is used, over all functions expanded on the way"""
    bad = set()
    for s, b, e, fr in x.obl:
        if isinstance(b, tuple) and b != ('this',) and N.why(x, s, b):
            bad.add('%s:%s' % (fr.fn['f'].replace('sps::', ''), e.get('l')))
    for s, e, vals, fr in x.pas:
        for i, where in N.wanted(e):
            if i < len(vals) and N.why(x, s, vals[i]):
                bad.add('%s:%s' % (fr.fn['f'].replace('sps::', ''), e.get('l')))
    return bad


def p13(ctx):
    prog = ctx.prog
    R = 'absent'
    ctx.rule(R, 'on no path is a value followed that may be absent there, or handed to a function that follows it untested: the null answer '
                'of a function of this program (found by looking at all of its answers, through every override), of the C, state threads '
                'and OpenSSL libraries, or of an expired weak pointer')
    N = Nulls(prog)
    _, yields = C.may_yield(prog)
    ctx.notes['functions that may answer null'] = sorted({v[0].replace('sps::', '') for v in N.null.values()})

    def opens(g, fr):
        if g['f'] in SEARCH:
            return False
        if g.get('ret') == 'b' or any(pointer(p['t']) for p in g['params']) and size(g) < 120:
            return True
        return g['u'] in N.null or bool(N.needs.get(g['u'])) or g.get('isctor') or fr.fn['u'] in N.null or \
            g['f'].split('::')[-1] in ('get_instance', 'operator[]') or members_followed(g)
    held = {}

    def members_followed(g):
        if g['u'] not in held:
            held[g['u']] = any(g['f'].replace('sps::', '') == w.rsplit(':', 1)[0] for d in N.needs.values() for w in d.values())
        return held[g['u']]
    for f in N.fs:
        x = N.runs[f['u']][0]
        bad, seen = sites(N, f, x)
        ctx.see(x)
        for depth in (2, 4, 6):
            if not bad:
                break
            y = X(prog, inline=opens, max_depth=depth)
            y.yields = yields
            try:
                y.run(f)
            except AnalysisError:
                break
            bad2, _ = sites(N, f, y)
            inner = everywhere(N, y)
            opened = {prog.funcs[u]['f'].replace('sps::', '') for u in y.visited if u != f['u']}
            ctx.see(y)
            bad = {k: bad2[k] for k in bad if k in bad2 and (k[1][10:].rsplit(':', 1)[0] not in opened or k[1][10:] in inner)}
        for k in sorted(seen):
            what = '%s:%s %s' % (f['f'].replace('sps::', ''), k[0], k[1])
            if k in bad:
                w, s = bad[k]
                ctx.fail(R, what, f['file'], k[0], f['f'], 'a value that may be absent (%s) is %s' % (w, k[1]),
                         key='%s|%s' % (f['f'], k[1]), witness=C.witness(s))
            else:
                ctx.ok(R, what)
