"""P16: nothing that arrives from outside ends the process."""
import flow
from flow import ZERO, NULL, I, sub, add, eqatom, show
from program import AnalysisError, walk
from rules import common as C

FATAL = {'exit', '_exit', 'abort', 'quick_exit', 'std::terminate', 'std::exit', 'std::abort', 'terminate', 'raise', 'kill'}
# converters that throw on text that is no number
THROWS = {'std::' + n for n in ('stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold')}
SEQ = ('std::vector', 'std::basic_string', 'std::deque', 'std::__cxx11::basic_string')
EMPTY = ('front', 'back', 'pop_front', 'pop_back')


class T(flow.Exec):
    """notes what must hold for the standard library not to throw or to misbehave, and for divisions"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.obl = []            # (kind, state, data, line, frame)
        self.here = None
        self.hvs = {}            # value of a loop's variable in any iteration -> (loop, variable, values before the loop)

    def load(self, s, loc, ty='?'):
        v = super().load(s, loc, ty)
        if v[0] == 'ld' and v[2] == 0 and v[1][0] == 'F' and v[1][1][0] == 'D' and v[1][1][1][0] == 'new' and 'basic_string' in str(ty)[:40]:
            return ('empty', ty)         # a text of a new object that its constructor left alone
        return v

    def havoc(self, s, mods, fr, n):
        out = super().havoc(s, mods, fr, n)
        for k, v in out.store.items():
            if k[0] == 'L' and isinstance(v, tuple) and v and v[0] == 'hv' and s.store.get(k) is not None and s.store[k] != v:
                self.hvs.setdefault(v, []).append((id(n), k, s.store[k], s))
        return out

    def note(self, kind, s, data, e, fr):
        self.obl.append((kind, s, data, e.get('l') or 0, fr.fn))

    def stdcall(self, e, fr, s, name, cls):
        out = super().stdcall(e, fr, s, name, cls)
        for y, t in out:
            if name == 'substr' and t[0] == 'call':
                self.note('substr', y, (t[2], t[3] if len(t) > 3 else ZERO), e, fr)
            elif name in EMPTY and y.ev and y.ev[-1][0] in ('q', 'mut') and y.ev[-1][1] == name:
                self.note('empty', y, (y.ev[-1][8] if y.ev[-1][0] == 'q' else y.ev[-1][7], name), e, fr)
            elif name == 'at' and t[0] == 'call' and cls.startswith(SEQ):
                self.note('index', y, (t[2], t[3]), e, fr)
            elif name == 'erase' and y.ev and y.ev[-1][0] == 'mut' and y.ev[-1][3] and len(y.ev[-1][3]) == 1:
                a = y.ev[-1][3][0]
                if 'iterator' in str((e.get('args') or [{}])[0].get('t')):
                    self.note('iter', y, (a,), e, fr)
        return out

    def opcall(self, e, fr, s):
        op, args = e['op'], e['args']
        t0 = flow.unref(args[0]['t'])
        if op in ('++', '--') and any(q[0] == 'mut' and q[1] == 'erase' for q in s.ev) and not self.p.funcs.get(e.get('u')):
            for y, l in self.lv(args[0], fr, s):
                self.note('erased', y, (bare(self.load(y, l, args[0]['t'])),), e, fr)
        out = super().opcall(e, fr, s)
        if not out or self.p.funcs.get(e.get('u')):
            return out
        if op in ('->', '*') and len(args) == 1 and not flow.is_smart(t0):
            for y, t in out:
                v = t[1] if t[0] == 'itp' else t[1][1][1] if t[0] == 'ref' and t[1][0] == 'X' and t[1][1][0] == 'it' else None
                if v is not None:
                    self.note('iter', y, (v,), e, fr)
                    self.note('erased', y, (bare(v),), e, fr)
        return out

    def e_bin(self, e, fr, s):
        self.here = fr
        return super().e_bin(e, fr, s)

    def e_asg(self, e, fr, s):
        self.here = fr
        return super().e_asg(e, fr, s)

    def binop(self, op, a, b, e, s):
        if op in ('/', '%') and str(e.get('t')) not in ('f64', 'f32') and self.here is not None:
            self.note('division', s, (b,), e, self.here)
        return super().binop(op, a, b, e, s)


def size_of(v):
    if v[0] == 'empty':
        return ZERO
    t = ('call', 'size', v)
    flow.NONNEG.add(t)
    return t


def leq(s, a, b):
    return s.truth(('le0', sub(a, b))) is True


def nonempty(s, v):
    if v[0] == 'M' and v[1] in ('push_back', 'push_front', 'insert', 'emplace_back', 'emplace_front'):
        return True
    n = size_of(v)
    return s.truth(eqatom(n, ZERO)) is False or leq(s, I(1), n)


def npos(v):
    return v[0] == 'i' and v[1] in (-1, 2 ** 64 - 1)


def isfind(p, v):
    return p[0] == 'call' and p[1] in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and p[2] == v


def found(s, p):
    return any(npos(q) for q in s.ne.get(p, ())) or \
        any(a == eqatom(p, n) and b is False for n in (I(-1), I(2 ** 64 - 1)) for a, b in s.facts)


def urlfield(s, v, p):
    """the position of a part of a URL lies inside the text it was parsed from, once the part is known to be there"""
    if p[0] != 'ld' or p[1][0] != 'F' or not p[1][2].endswith('::off') or p[1][1][0] != 'I' or not p[1][1][1][-1].endswith('::field_data'):
        return False
    k = p[1][1][2]
    if k[0] != 'i':
        return False
    for a, b in s.facts:
        if b is False and a[0] == 'eq' and ZERO in a[1:]:
            t = a[1] if a[2] == ZERO else a[2]
            if t[0] == 'op' and t[1] == '&' and len(t) == 4 and I(1 << k[1]) in t[2:]:
                o = t[3] if t[2] == I(1 << k[1]) else t[2]
                if o[0] == 'ld' and o[1][0] == 'F' and o[1][2].endswith('::field_set') and o[1][1] == p[1][1][1][1]:
                    return True
    return False


def schema(s, v, p):
    """a parsed URL whose schema is the text L is at least as long as L://h"""
    if p[0] != 'i':
        return False
    for a, b in s.facts:
        if b is True and a[0] == 'eq':
            for t, lit in (a[1:], a[1:][::-1]):
                if lit[0] == 's' and t[0] == 'call' and t[1] == 'substr' and t[2] == v and urlfield(s, v, t[3]) \
                        and t[3][1][1][2] == ZERO and p[1] <= len(lit[1]) + 4:
                    return True
    return False


def never(s):
    """the path compares a text known to be empty with one that is not"""
    return any(b is True and a[0] == 'eq' and {a[1][0], a[2][0]} == {'empty', 's'} and (a[1] if a[1][0] == 's' else a[2])[1] for a, b in s.facts
               if isinstance(a, tuple) and len(a) == 3)


def holds(kind, s, d, x=None, deep=0):
    if never(s):
        return True
    if kind == 'division':
        b = d[0]
        return b[0] == 'i' and b[1] != 0 or s.truth(eqatom(b, ZERO)) is False or leq(s, I(1), b) or x is not None and x.nonzero(b)
    if kind == 'empty':
        return nonempty(s, d[0])
    if kind == 'substr':
        v, p = d
        if p == ZERO or leq(s, p, size_of(v)) or urlfield(s, v, p) or schema(s, v, p):
            return True
        for k in (0, 1):
            q = sub(p, I(k))
            if isfind(q, v) and found(s, q):
                return True
        return x is not None and deep == 0 and cursor(x, v, p)
    if kind == 'index':
        v, i = d[:2]
        return leq(s, add(i, I(1)), size_of(v))
    if kind == 'erased':
        return not any(q[0] == 'mut' and q[1] == 'erase' and q[3] and bare(q[3][0]) == d[0] for q in s.ev)
    if kind == 'iter':
        v = bare(d[0])
        if v[0] == 'call' and v[1] in ('begin', 'rbegin') and nonempty(s, v[2]):
            return True
        return any(apart(s, v, q) for q in against(s, v))
    return False


def cursor(x, v, p):
    """a position kept across iterations: right before the loop and at the end of every iteration"""
    if p not in x.hvs:
        return False
    for n, k, init, pre in x.hvs[p]:
        if not holds('substr', pre, (v, init), x, 1):
            return False
        for node, fn, s, cont in x.iter_ends:
            w = s.store.get(k)
            if id(node) != n or not cont or w is None or any(q[0] == 'hv' and q != p and q[1] == p[1] for q in flow.subterms(w)):
                continue
            if w != p and not holds('substr', s, (v, s.store[k]), x, 1):
                return False
    return True


def bare(v):
    while v[0] == 'mk' and 'terator' in str(v[1]) and len(v[2]) == 1:
        v = v[2][0]
    return v


def against(s, v):
    """the ends the iterator is known to differ from"""
    for a, b in s.facts:
        if b is False and isinstance(a, tuple) and a[0] == 'eq' and v in a[1:]:
            yield a[1] if a[2] == v else a[2]
    for q, w in s.ne.items():
        if q == v:
            yield from w
        elif v in w:
            yield q


def apart(s, v, q):
    return isinstance(q, tuple) and q[0] == 'call' and q[1] in ('end', 'rend')


def reach(prog):
    """the functions a connection's handler may run"""
    h = C.is_handler(prog)
    up, work = {}, [(u, None) for u, f in prog.funcs.items() if f['file'].startswith('src/') and h(f)]
    roots = len(work)
    while work:
        u, p = work.pop()
        if u in up:
            continue
        up[u] = p
        f = prog.funcs[u]
        for n, ds, name in C.callees(prog, f):
            work += [(d['u'], u) for d in ds]
        work += [(n['u'], u) for n in walk(f.get('body') or {}) if n.get('k') in ('fnref', 'memfn') and n.get('u') in prog.funcs]
    return up, roots


def chain(prog, up, u):
    out = []
    while u:
        out.append(prog.funcs[u]['f'])
        u = up[u]
    return out[::-1]


def hazards(f):
    """the constructs of a function that may go wrong, as the syntax shows them"""
    for n in walk(f.get('body') or {}):
        k = n.get('k')
        nm = (n.get('f') or '').split('::')[-1]
        if k == 'call' and nm in EMPTY + ('substr', 'at', 'erase'):
            yield n
        elif k == 'opcall' and n.get('op') in ('->', '*') and not flow.is_smart(flow.unref(n['args'][0]['t'])):
            yield n
        elif k in ('bin', 'asg', 'casg') and str(n.get('op')).rstrip('=') in ('/', '%') and str(n.get('t')) not in ('f64', 'f32'):
            yield n


class NonZero:
    """fields that no part of the program ever gives the value 0"""
    def __init__(self, prog):
        self.p = prog
        self.sets, self.inits, self.uses = {}, {}, {}
        for f in prog.funcs.values():
            for i in f.get('inits') or ():
                if i.get('q') or i.get('f'):
                    self.inits.setdefault(i.get('q') or i.get('f'), []).append((f, i.get('e')))
                for n in walk(i.get('e') or {}):
                    self.one(f, n)
            for n in walk(f.get('body') or {}):
                self.one(f, n)

    def one(self, f, n):
        if n.get('k') in ('asg', 'casg') and n['a'].get('k') == 'mem':
            self.sets.setdefault(n['a'].get('q'), []).append((f, n))
        elif n.get('k') == 'un' and n.get('op') in ('++', '--', '&') and (n.get('e') or n.get('a') or {}).get('k') == 'mem':
            self.sets.setdefault((n.get('e') or n['a']).get('q'), []).append((f, None))
        if n.get('u') and 'args' in n:
            self.uses.setdefault(n['u'], []).append((f, n))

    def field(self, q, busy=()):
        if q in busy:
            return True
        st = self.sets.get(q, [])
        cls = q.rsplit('::', 1)[0]
        ctors = {f['u'] for f in self.p.funcs.values() if f.get('isctor') and f.get('cls') == cls and f.get('body')}
        done = {f['u'] for f, n in st} | {f['u'] for f, e in self.inits.get(q, [])}
        if not ctors or not ctors <= done:
            return False
        return all(n is not None and n['k'] == 'asg' and n.get('op') == '=' and self.expr(n['c'], f, busy + (q,)) for f, n in st) and \
            all(self.expr(e, f, busy + (q,)) for f, e in self.inits.get(q, []))

    def expr(self, e, f, busy):
        if not isinstance(e, dict):
            return False
        if 'cv' in e or e.get('k') == 'int':
            return (e['cv'] if 'cv' in e else e['v']) != 0
        if e.get('k') in ('cast', 'paren') and e.get('e'):
            return self.expr(e['e'], f, busy)
        if e.get('k') == 'mem':
            return self.field(e.get('q'), busy)
        if e.get('k') == 'var':
            ps = [i for i, q in enumerate(f.get('params') or ()) if q.get('id') == e.get('id')]
            if not ps or (f['u'], ps[0]) in busy:
                return bool(ps)
            us = self.uses.get(f['u'], [])
            if not us or any(n.get('k') in ('asg', 'casg') and n['a'].get('k') == 'var' and n['a'].get('id') == e['id'] for n in walk(f.get('body') or {})):
                return False
            i = ps[0]
            return all(self.expr(n['args'][i], g, busy + ((f['u'], i),)) if i < len(n['args']) else f['params'][i].get('dv', 0) != 0 for g, n in us)
        return False

    def __call__(self, b):
        return b[0] == 'ld' and b[1][0] == 'F' and isinstance(b[1][2], str) and self.field(b[1][2])


WHAT = {
    'substr': 'text is cut at a position that was not shown to lie inside it',
    'index': 'at() with an index that was not shown to be inside',
    'empty': 'an element is taken from a container that may be empty',
    'iter': 'an iterator that may be the end is followed',
    'erased': 'an iterator is used after what it points at was erased',
    'division': 'a division by what may be 0',
}


def open_sites(x, only=None):
    seen, bad = {}, {}
    for kind, s, d, l, fn in x.obl:
        if only and fn['u'] != only['u']:
            continue
        k = (kind, l)
        seen[k] = 1
        if k not in bad and not holds(kind, s, d, x):
            bad[k] = (s, d)
    return seen, bad


def small(g, fr):
    if g['u'] not in SIZE:
        SIZE[g['u']] = sum(1 for n in walk(g.get('body') or {})), any(n.get('k') in ('for', 'while', 'do', 'rfor') for n in walk(g.get('body') or {}))
    return SIZE[g['u']][0] < 90 and not SIZE[g['u']][1]


SIZE = {}


def run(prog, nz, f, depth, inline=None):
    x = T(prog, max_depth=depth, inline=inline)
    x.max_states = min(x.max_states, 20000)
    x.nonzero = nz
    x.run(f)
    return x


def p16(ctx):
    prog = ctx.prog
    ctx.rule('ends', 'no function that a connection can reach ends the process (exit, abort, terminate, throw, a conversion that throws)')
    ctx.rule('inside', 'text is cut, and elements are taken, only where the path has shown the place to be there (size, search result, parsed part)')
    ctx.rule('divisor', 'every integer divisor is a constant, was tested on the path, or is a field nothing ever sets to 0')
    ctx.assume('http_parser_parse_url gives offsets inside the text for the parts whose bit is set, and a URL with a schema has "://" and a host')
    ctx.assume('memory is not exhausted; assertions on buffer room are sizes, which P01 decides')
    up, roots = reach(prog)
    if roots < 8:
        raise AnalysisError('only %d handlers found' % roots)
    nz = NonZero(prog)
    fs = [prog.funcs[u] for u in up if prog.funcs[u]['file'].startswith('src/') and prog.funcs[u].get('body')]
    fs.sort(key=lambda f: (f['file'], f['l']))
    callers = {}
    for u in up:
        for n, ds, name in C.callees(prog, prog.funcs[u]):
            for d in ds:
                callers.setdefault(d['u'], set()).add(u)
    for f in fs:
        end = [n for n in walk(f['body']) if n.get('k') == 'throw' or n.get('k') == 'call' and (n.get('f') or '').split('<')[0] in FATAL | THROWS and not n.get('obj')]
        for n in end:
            nm = n.get('f') or 'throw'
            ctx.fail('ends', '%s:%s' % (f['f'], n.get('l')), f['file'], n.get('l') or f['l'], f['f'],
                     'a connection reaches %s' % nm, key='ends|%s|%s' % (f['f'], nm), witness=['reached through: ' + ' -> '.join(chain(prog, up, f['u']))])
        if not end:
            ctx.ok('ends', f['f'])
        if not any(True for n in hazards(f)):
            continue
        x = run(prog, nz, f, 0)
        ctx.see(x)
        seen, bad = open_sites(x, f)
        for depth in (1, 2):
            if bad:
                try:
                    y = run(prog, nz, f, depth, small)
                except AnalysisError:
                    break
                ctx.see(y)
                b2 = open_sites(y, f)[1]
                bad = {k: b2[k] for k in bad if k in b2}
        if bad:
            bad = outside(ctx, prog, nz, f, bad, callers, up)
        for k in sorted(seen):
            R = 'divisor' if k[0] == 'division' else 'inside'
            what = '%s:%s %s' % (f['f'].replace('sps::', ''), k[1], k[0])
            if k in bad:
                s, d = bad[k]
                ctx.fail(R, what, f['file'], k[1], f['f'], '%s (%s)' % (WHAT[k[0]], ', '.join(show(q)[:60] for q in d if isinstance(q, tuple))),
                         key='%s|%s|%s' % (k[0], f['f'], '/'.join(show(q)[:60] for q in d if isinstance(q, tuple))),
                         witness=C.witness(s) + ['reached through: ' + ' -> '.join(chain(prog, up, f['u']))])
            else:
                ctx.ok(R, what)


def outside(ctx, prog, nz, f, bad, callers, up):
    """what the function leaves to its callers: every one of them must have shown it"""
    cs = callers.get(f['u'], set())
    if any(k[0] == 'erased' for k in bad):
        return bad
    if not cs or up.get(f['u']) is None:
        return bad
    left, met = {}, set()
    for c in sorted(cs):
        g = prog.funcs[c]
        if not g.get('body'):
            continue
        try:
            x = run(prog, nz, g, 2, lambda h, fr: h['u'] == f['u'])
        except AnalysisError:
            return bad
        ctx.see(x)
        seen, b = open_sites(x, f)
        met |= set(seen)
        if not seen:
            return bad
        left.update({k: v for k, v in b.items() if k in bad})
    return {k: left.get(k, bad[k]) for k in bad if k in left or k not in met}
