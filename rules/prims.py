"""What the byte and bit readers and writers do to the buffer under them: the contracts the rest of P01 relies on, each decided
over every path of the primitive's own body."""
import flow
from flow import ZERO, I, sub, add, scale, show, eqatom
from rules import common as C

AB, BR, BW, BC, CB = 'sps::AVBuffer', 'sps::BytesReader', 'sps::BytesWriter', 'sps::BitContext', 'sps::CharBuffer'
ALL = (AB, BR, BW, BC, CB)
THIS = ('D', ('this',))


class Ent:
    """values of the fields at entry and now"""
    def __init__(self, x, s, f):
        self.x, self.s, self.f = x, s, f
        self.base = flow.State()

    def loc(self, q):
        ks = [k for k in self.s.store if k[0] == 'F' and k[2].rsplit('::', 1)[0] == q.rsplit('::', 1)[0] and k[1] != THIS]
        return ('F', ks[0][1] if ks and not q.startswith(self.f['cls'] + '::') else THIS, q)

    def old(self, q, loc=None):
        return self.x.load(self.base, loc or self.loc(q), self.ty(q))

    def new(self, q, loc=None):
        return self.x.load(self.s, loc or self.loc(q), self.ty(q))

    def ty(self, q):
        for fl in (self.x.p.records.get(q.rsplit('::', 1)[0]) or {}).get('fields', []):
            if fl['q'] == q:
                return fl['t']
        return 'u64'

    def delta(self, q):
        return sub(self.new(q), self.old(q))


def same(s, a, b):
    d = sub(a, b)
    return d == ZERO or s.entails_le0(d) and s.entails_le0(scale(d, -1))


def bits(e, which):
    g = e.old if which == 'old' else e.new
    return add(add(scale(sub(g(BC + '::sz'), g(BC + '::buf_pos')), 8), I(-8)), g(BC + '::remain_bits'))


def inner(e, cls):
    """the AVBuffer below a BytesReader or BytesWriter"""
    return ('F', ('D', e.old(cls + '::buf', ('F', THIS, cls + '::buf'))), AB)


def sized(v):
    w = {'8': 1, '16': 2, '24': 3, '32': 4}
    for k in ('32', '24', '16', '8'):
        if v.endswith(k):
            return w[k]


def contracts(prog, ctx):
    inl = lambda g, fr=None: g['f'].startswith(tuple(c + '::' for c in ALL)) and g['f'] not in (BC + '::read_bits', BC + '::write_bits')
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: (f['file'], f['l'])):
        cls = f.get('cls')
        if cls not in ALL or not f.get('body') or f['f'].rsplit('::', 1)[-1].startswith('~'):
            continue
        x = flow.Exec(prog, inline=inl, max_depth=8)
        name = f['f'].rsplit('::', 1)[-1]
        chk = judge(prog, x, f, cls, name)
        if chk is None:
            continue
        res = x.run(f)
        n += 1
        bad = None
        for s, v in res:
            m = chk(Ent(x, s, f), s, v)
            if m and bad is None:
                bad = (m, s)
        if name in ('read_bits', 'write_bits') and bad is None:
            bad = steps(x, f)
        what = '%s/%d does to its buffer what its callers count on' % (f['f'][5:], len(f['params']))
        if bad:
            ctx.fail('primitive', f['file'], f['l'], what, '%s: %s' % (f['f'][5:], bad[0]), C.witness(bad[1]))
        else:
            ctx.ok('primitive', f['file'], f['l'], what)
    return n


def diff(s, what, got, want):
    return None if same(s, got, want) else '%s is %s, not %s' % (what, show(got), show(want))


def judge(prog, x, f, cls, name):
    ps = [('p', p['n']) for p in f['params']]
    for p, v in zip(f['params'], ps):
        flow.TT.setdefault(v, p['t'])
    np = len(ps)

    if cls == AB:
        P, E, K = AB + '::buf_ptr', AB + '::buf_end', AB + '::buf_cap'
        def moves(dp, de):
            return lambda e, s, v: diff(s, 'the read position advance', e.delta(P), dp) or diff(s, 'the fill advance', e.delta(E), de) or \
                diff(s, 'the capacity', e.delta(K), ZERO)
        def gives(fn):
            return lambda e, s, v: diff(s, 'the result', v, fn(e))
        if f.get('isctor'):
            cap = ps[{2: 0, 3: 1, 4: 2}.get(np, 0)] if np > 1 else None
            if cap is None:
                return None
            return lambda e, s, v: diff(s, 'the capacity', e.new(K), cap) or diff(s, 'the read position', e.new(P), ZERO) or \
                diff(s, 'the fill', e.new(E), ps[1] if np == 4 else ZERO) or room(e, s, AB + '::buf', cap, ps)
        return {'skip': lambda: moves(ps[0], ZERO), 'append': lambda: moves(ZERO, ps[0]),
                'clear': lambda: lambda e, s, v: diff(s, 'the read position', e.new(P), ZERO) or diff(s, 'the fill', e.new(E), ZERO),
                'rewind': lambda: lambda e, s, v: diff(s, 'the read position', e.new(P), ZERO) or
                diff(s, 'the fill', e.new(E), sub(e.old(E), e.old(P))) or moved(e, s, P, E),
                'size': lambda: gives(lambda e: sub(e.old(E), e.old(P))), 'remain': lambda: gives(lambda e: sub(e.old(K), e.old(E))),
                'no_rewind_cap_size': lambda: gives(lambda e: sub(e.old(K), e.old(P))),
                'cap_size': lambda: lambda e, s, v: None if same(s, v, sub(e.old(K), e.old(P))) or same(s, v, e.old(K)) and
                s.eq.get(e.old(AB + '::rewindable')) != ZERO else 'the result is %s' % show(v),
                'pos': lambda: gives(lambda e: add(e.old(AB + '::buf'), e.old(P))), 'end': lambda: gives(lambda e: add(e.old(AB + '::buf'), e.old(E))),
                'buffer': lambda: gives(lambda e: e.old(AB + '::buf'))}.get(name, lambda: None)()

    if cls in (BR, BW):
        def ab(e, q, t='old'):
            loc = ('F', inner(e, cls)[1], AB + '::' + q)
            return (e.old if t == 'old' else e.new)(AB + '::' + q, loc)
        def d(e, q):
            return sub(ab(e, q, 'new'), ab(e, q))
        def step(n, rd):
            return lambda e, s, v: diff(s, 'the read position advance', d(e, 'buf_ptr'), n if rd else ZERO) or \
                diff(s, 'the fill advance', d(e, 'buf_end'), ZERO if rd else n)
        if f.get('static') or f.get('isctor') or name.startswith('create_'):
            return None
        rd = cls == BR
        if name == 'acquire':
            if rd:
                def acq(e, s, v):
                    if s.eq.get(v, v) != ZERO:
                        return None
                    left = sub(ab(e, 'buf_end', 'new'), ab(e, 'buf_ptr', 'new'))
                    return None if s.entails_le0(sub(ps[0], left)) else 'it succeeds with %s left, %s asked for' % (show(left), show(ps[0]))
                return acq
            return lambda e, s, v: None if s.eq.get(v, v) != ZERO or s.entails_le0(sub(ps[0], sub(ab(e, 'buf_cap'), ab(e, 'buf_end')))) else \
                'it succeeds without room for %s' % show(ps[0])
        if name.startswith(('read_int', 'write_int')):
            return step(I(sized(name)), rd)
        if name in ('read_bytes', 'skip_bytes', 'skip', 'write_bytes'):
            return step(ps[-1], rd)
        if name == 'size':
            return lambda e, s, v: diff(s, 'the result', v, sub(ab(e, 'buf_end'), ab(e, 'buf_ptr')))
        if name == 'pos':
            return lambda e, s, v: diff(s, 'the result', v, add(ab(e, 'buf'), ab(e, 'buf_ptr')))
        return None

    if cls == BC:
        if f.get('isctor') and np != 2:
            return None
        if f.get('isctor') or name == 'init':
            return lambda e, s, v: diff(s, 'what there is to read', bits(e, 'new'), scale(ps[1], 8)) or diff(s, 'the buffer', e.new(BC + '::buf'), ps[0])
        if name == 'size_bits':
            return lambda e, s, v: diff(s, 'the result', v, bits(e, 'old'))
        if name == 'size':
            return lambda e, s, v: None if v == ('op', '/', bits(e, 'old'), I(8)) or v == ('op', '>>', bits(e, 'old'), I(3)) or v[0] == 'call' \
                else 'the result is %s' % show(v)
        if name in ('acquire', 'acquire_bits'):
            k = 8 if name == 'acquire' else 1
            return lambda e, s, v: None if s.eq.get(v, v) != ZERO or s.entails_le0(sub(scale(ps[0], k), bits(e, 'old'))) else \
                'it succeeds without %s %s there' % (show(ps[0]), 'bytes' if k == 8 else 'bits')
        if name in ('read_bytes', 'skip_read_bytes', 'write_bytes', 'skip_write_bytes'):
            return lambda e, s, v: diff(s, 'what is consumed', sub(bits(e, 'old'), bits(e, 'new')), scale(ps[-1], 8))
        if name == 'pos':
            # at most the eight bits of one byte are opened
            def fits(e, s, v):
                r = e.old(BC + '::remain_bits')
                t = sub(add(scale(sub(v, e.old(BC + '::buf')), 8), bits(e, 'old')), scale(e.old(BC + '::sz'), 8))
                return None if s.entails_le0(t) or s.entails_le0(add(sub(t, r), I(8))) else 'what is left does not fit behind %s' % show(v)
            return fits
        if name.startswith(('read_int', 'write_int')):
            w = 8 * sized(name)
            prim = BC + ('::read_bits' if name[0] == 'r' else '::write_bits')
            def total(e, s, v):
                got = ZERO
                for ev in s.ev:
                    if ev[0] == 'call' and ev[1] == prim:
                        got = add(got, C.vargs(ev)[-1])
                return diff(s, 'what is consumed', got, I(w))
            return total
        if name in ('read_bits', 'write_bits'):
            return lambda e, s, v: None
        return None

    if cls == CB:
        L, K, H, B = CB + '::len', CB + '::cap_len', CB + '::head_len', CB + '::buf'
        if f.get('isctor') and np > 1:
            cap = ps[1] if np == 3 else ps[0]
            return lambda e, s, v: diff(s, 'the capacity', e.new(K), cap) or diff(s, 'the length', e.new(L), ps[1] if np == 3 else ZERO) or \
                diff(s, 'the room for the head', e.new(H), ps[-1]) or room(e, s, B, add(cap, ps[-1]), ps)
        if name in ('append', 'skip'):
            return lambda e, s, v: diff(s, 'the length advance', e.delta(L), ps[-1]) or \
                (None if s.entails_le0(sub(e.new(L), e.new(K))) else 'it does not stop at the capacity') or \
                (copied(e, s, add(add(e.old(B), e.old(H)), e.old(L)), ps[-1]) if name == 'append' else None)
        want = {'size': lambda e: e.old(L), 'cap': lambda e: e.old(K), 'remain': lambda e: sub(e.old(K), e.old(L)),
                'buffer': lambda e: add(e.old(B), e.old(H)), 'pos': lambda e: add(add(e.old(B), e.old(H)), e.old(L))}.get(name)
        return (lambda e, s, v: diff(s, 'the result', v, want(e))) if want else None
    return None


def room(e, s, q, n, ps):
    """the memory it allocates is as large as it says"""
    v = e.new(q)
    if v[0] in ('p', 'null'):
        return None
    for ev in s.ev:
        if ev[0] == 'new' and ev[3] == v:
            return diff(s, 'the memory allocated', ev[2] if ev[2] is not None else I(1), n)
    return None


def moved(e, s, P, E):
    for ev in s.ev:
        if ev[0] == 'call' and ev[1].rsplit('::', 1)[-1] in ('memmove', 'memcpy'):
            a = C.vargs(ev)
            return diff(s, 'where it moves to', a[0], e.old(AB + '::buf')) or diff(s, 'what it moves', a[1], add(e.old(AB + '::buf'), e.old(P))) or \
                diff(s, 'how much it moves', a[2], sub(e.old(E), e.old(P)))
    return None


def copied(e, s, to, n):
    for ev in s.ev:
        if ev[0] == 'call' and ev[1].rsplit('::', 1)[-1] in ('memmove', 'memcpy'):
            return diff(s, 'where it copies to', C.vargs(ev)[0], to) or diff(s, 'how much it copies', C.vargs(ev)[2], n)
    return None


def steps(x, f):
    """every turn of the loop that moves bits takes as many from the buffer as it takes from the count"""
    for it in x.iter_ends:
        n, fn, s = it[0], it[1], it[2]
        if fn['u'] != f['u']:
            continue
        e = Ent(x, s, f)
        e.base = flow.State()
        e.base.ver = dict(s.ver)
        yield_ = sub(bits(e, 'old'), bits(e, 'new'))
        cnt = [k for k in s.store if k[0] == 'L' and k[2] == f['params'][-1]['id']]
        if not cnt:
            continue
        now = s.store[cnt[0]]
        entry = sorted({t for q in (now,) + tuple(s.le) for t in flow.lin(q)[1] if t[0] == 'hv' and t[1] == f['params'][-1]['id']}, key=repr)
        took = sub(entry[0], now) if entry else None
        if took is None or not same(s, yield_, took):
            return ('one turn takes %s from the buffer and %s from the count' % (show(yield_), show(took) if took else '?'), s)
        if e.new(BC + '::buf_pos') != e.old(BC + '::buf_pos') and not (s.entails_le0(e.old(BC + '::remain_bits')) and s.entails_le0(sub(I(1), entry[0]))):
            return ('the next byte is opened though nothing of it is needed', s)
    return None
