"""P03: a full read or a write transfers every byte that was asked for, once and in order, or answers an error; a read answers how
much it transferred."""
import flow
from flow import ZERO, I, sub, add, scale, show, subst, subterms, eqatom
from program import walk
from rules import common as C

READER, WRITER = 'sps::IReader', 'sps::IWriter'
# name: (direction, buffer argument, size argument, what its answer means)
#   'n'    answer = bytes transferred, possibly fewer than asked
#   'all+' a positive answer = everything was transferred (state threads loop inside)
#   'all=' the answer is the number of bytes, everything when it equals the size
PRIM = {
    'st_read': ('r', 1, 2, 'n'), 'st_recvfrom': ('r', 1, 2, 'n'), 'srt_recv': ('r', 1, 2, 'n'), 'srt_recvmsg': ('r', 1, 2, 'n'),
    'SSL_read': ('r', 1, 2, 'n'), 'recv': ('r', 1, 2, 'n'), 'read': ('r', 1, 2, 'n'), 'BIO_read': ('r', 1, 2, 'n'),
    'st_read_fully': ('r', 1, 2, 'n'),
    'st_write': ('w', 1, 2, 'all+'), 'st_sendto': ('w', 1, 2, 'n'), 'srt_sendmsg': ('w', 1, 2, 'n'), 'srt_send': ('w', 1, 2, 'n'),
    'SSL_write': ('w', 1, 2, 'n'), 'send': ('w', 1, 2, 'n'), 'sendto': ('w', 1, 2, 'n'), 'write': ('w', 1, 2, 'n'),
}
CASTS = ('tr', 'ex', 'cast', 'sx', 'zx')


class X(flow.Exec):
    """remembers what was known before each loop"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.heads = []

    def havoc(self, s, mods, fr, n):
        h = super().havoc(s, mods, fr, n)
        self.heads.append(((fr.fn['f'], n['l']), s, h))
        return h


def implementations(prog, base, name):
    out = []
    for f in prog.funcs.values():
        cls, _, n = f['f'].rpartition('::')
        if n == name and f.get('body') and f.get('cls') and not f.get('static') and base in prog.bases(f['cls']) and cls != base:
            out.append(f)
    return sorted(out, key=lambda f: (f['file'], f['l']))


def transfer(prog, s, ev, i, io):
    """(direction, address, size, count or None when it failed, fact) of the event, or None"""
    e = ev[i]
    if e[0] == 'mut' and e[1] in ('read', 'write') and len(e[3]) == 2:
        # a stream: whole when it says afterwards that it did not fail
        good = None
        for g in ev[i + 1:]:
            if g[0] == 'mut' and g[2] == e[2]:
                r = ('mr', g[1], g[7], g[3])
                if g[1] in ('fail', 'operator!'):
                    t = s.truth(eqatom(r, ZERO))
                    good = t if t is not None else good
                elif g[1] in ('good', 'operator bool'):
                    t = s.truth(eqatom(r, ZERO))
                    good = (not t) if t is not None else good
                elif g[1] == 'gcount' and e[1] == 'read' and good is None:
                    good = ('n', r)
                elif g[1] in ('read', 'write'):
                    break
        c = e[3][1] if good is True else good[1] if isinstance(good, tuple) else ZERO if good is False else ('unknown', i)
        return e[1][0], e[3][0], e[3][1], c
    if e[0] != 'call':
        return None
    n = e[1].rsplit('::', 1)[-1]
    a = C.vargs(e)
    u = e[2]
    if n in ('read', 'read_fully', 'write') and u in io:
        if n == 'read' and len(a) >= 3:
            z = s.truth(eqatom(e[5], ZERO))
            o = [x[2] for x in e[9] if x[0] == 2]
            c = ZERO if z is False else o[0] if o and z is True else a[2] if z is True else ('unknown', i)
            return 'r', a[0], a[1], c
        if n == 'read_fully' and len(a) == 3:
            z = s.truth(eqatom(e[5], ZERO))
            return 'r', a[0], a[1], ZERO if z is False else a[1] if z is True else ('unknown', i)
        if n == 'write' and len(a) == 2:
            z = s.truth(eqatom(e[5], ZERO))
            return 'w', a[0], a[1], ZERO if z is False else a[1] if z is True else ('unknown', i)
        return None
    if e[1] in PRIM and len(a) > 2:
        d, b, k, kind = PRIM[e[1]]
        r = e[5]
        if s.entails_le0(r) or s.truth(eqatom(r, I(-1))) is True:
            return d, a[b], a[k], ZERO
        if kind == 'all+':
            return d, a[b], a[k], a[k] if s.entails_le0(sub(I(1), r)) or s.truth(eqatom(r, a[k])) is True else ('unknown', i)
        return d, a[b], a[k], r
    return None


def io_usrs(prog):
    """the read, read_fully and write of every reader and writer"""
    out = set()
    for base, names in ((READER, ('read', 'read_fully')), (WRITER, ('write',))):
        for n in names:
            for f in prog.funcs.values():
                if f['f'].rpartition('::')[2] == n and f.get('cls') and base in list(prog.bases(f['cls'])) + [f['cls']]:
                    out.add(f['u'])
        rec = prog.records.get(base) or {}
        for m in rec.get('methods', []):
            if m.get('n') in names:
                out.add(m['u'])
    for u, v in prog.overriders.items():
        if u in out or set(v) & out:
            out.add(u)
            out |= set(v)
    return out


def clean(t):
    while isinstance(t, tuple) and t and t[0] in CASTS and len(t) == 3:
        t = t[2]
    return t


class Walk:
    """transfers of the caller's buffer along one path"""
    def __init__(self, prog, x, s, f, io, base, size, way):
        self.prog, self.x, self.s, self.f, self.io, self.base, self.size, self.way = prog, x, s, f, io, base, size, way
        self.list = []
        self.loops = []          # loops open at each transfer
        st = []
        for i, e in enumerate(s.ev):
            if e[0] == 'loop':
                st.append(e[1])
            elif e[0] == 'endloop' and st:
                st.pop()
            t = transfer(prog, s, s.ev, i, io)
            if t is None or t[0] != way:
                continue
            off = self.offset(t[1])
            if off is None:
                continue
            self.list.append((off, t[2], t[3], i, tuple(st), e))

    def offset(self, a):
        a = clean(a)
        o = sub(a, self.base)
        if a[0] == 'ad':
            return None
        if contains_base(a, self.base):
            return None if contains_base(o, self.base) else o
        return o if self.is_cursor(a) else None

    def is_cursor(self, a):
        """a pointer that starts as the buffer before its loop and walks through it"""
        for t in subterms(a):
            if t[:1] == ('hv',):
                v = self.before(t)
                if v is not None and contains_base(v, self.base):
                    return True
        return False

    def before(self, hv):
        for lid, pre, head in self.x.heads:
            for k, v in head.store.items():
                if v == hv:
                    return pre.store.get(k)
        return None

    def after(self, hv, end):
        for lid, pre, head in self.x.heads:
            for k, v in head.store.items():
                if v == hv:
                    return end.store.get(k)
        return None


def contains_base(a, base):
    return any(t == base for t in subterms(a))


def hvs(t):
    return [x for x in set(subterms(t)) if x[:1] == ('hv',)]


def wide(t):
    """sizes below 2 GiB: the narrower types of the libraries hold them"""
    return subst(t, lambda x: clean(x) if isinstance(x, tuple) and x and x[0] in CASTS and len(x) == 3 else x)


def equal(s, a, b):
    d = sub(wide(a), wide(b))
    if d == ZERO or s.entails_le0(d) and s.entails_le0(scale(d, -1)):
        return True
    for (atom, val) in s.facts:
        if val and atom[0] == 'eq' and atom[2] == ZERO and atom[1][0] == 'lin':
            for k in (1, -1):
                g = add(d, scale(wide(atom[1]), k))
                if g == ZERO or s.entails_le0(g) and s.entails_le0(scale(g, -1)):
                    return True
    return False


def induct(w, off, get):
    """off with every loop variable replaced by what get says of it"""
    m = {h: get(h) for h in hvs(off)}
    if any(v is None for v in m.values()):
        return None
    return subst(off, lambda t: m.get(t, t))


def tile(ctx, R, f, prog, x, res, io, way, base, size, code, need_all=True):
    name = C.short(f['f']) if isinstance(f, str) else f['f'].replace('sps::', '')
    ends = [(s, None) for n, fn, s, again in x.iter_ends if again]
    seen = 0
    for s, v in list(res) + ends:
        last = v is not None
        if last:
            s = succeed(s, v)
            if s is None:
                continue
        w = Walk(prog, x, s, f, io, base, size, way)
        if not last and not any(e[0] == 'loop' for e in s.ev):
            continue
        wit = C.witness(s, v)
        pos = ZERO
        tr = [t for t in w.list if t[2] != ZERO]
        seen += len(w.list)
        # transfers in the order in which they happen
        for k, (off, sz, cnt, i, loops, e) in enumerate(tr):
            at = C.line_of(e) if e[0] == 'call' else (e[5], e[4], e[6])
            if cnt[0] == 'unknown':
                ctx.fail(R, '%s: the answer of a transfer' % name, *at, 'goes on although the transfer may have failed', key=f['f'] + ':answer', witness=wit)
                return
            H = hvs(off)
            if H and k == 0:
                # at the head of a loop: starts at the beginning, and goes on where it stopped
                p0 = induct(w, off, w.before)
                ctx.judge(p0 is not None and equal(s, p0, ZERO), R, '%s: starts at the beginning of the buffer' % name, *at,
                          'the first transfer starts at offset %s' % (show(p0) if p0 else 'unknown'), key=f['f'] + ':start', witness=wit)
            else:
                ctx.judge(equal(s, off, pos), R, '%s: each piece follows the one before' % name, *at,
                          'transfers at offset %s, %s bytes are done' % (show(off), show(pos)), key=f['f'] + ':order', witness=wit)
            pos = add(off, cnt)
            # what is asked for fits in what is left
            room = sub(add(off, sz), size)
            ok = s.entails_le0(room) or equal(s, room, ZERO)
            if not ok and hvs(sz):
                z = induct(w, room, w.before)
                ok = z is not None and s.entails_le0(z) and all(
                    keeps(w, room, s2) for s2, v2 in ends if in_loop(s2, loops))
            ctx.judge(ok, R, '%s: asks for no more than is left' % name, *at, 'asks for %s bytes at offset %s of %s' % (show(sz), show(off), show(size)),
                      key=f['f'] + ':room', witness=wit)
        if not last:
            # the end of an iteration: the cursor of the loop stands behind what was transferred
            cur = tr or other(prog, x, s, f, io, base, size, way, res, ends)
            if cur:
                off = cur[0][0]
                nxt = induct(w, off, lambda h: w.after(h, s))
                target = pos if tr else off
                at = (f['file'], f['l'], f['f']) if not tr else (C.line_of(tr[-1][5]) if tr[-1][5][0] == 'call' else (tr[-1][5][5], tr[-1][5][4], tr[-1][5][6]))
                ctx.judge(nxt is not None and equal(s, nxt, target), R, '%s: goes on where it stopped' % name, *at,
                          'the next piece goes to offset %s, %s bytes are done' % (show(nxt) if nxt else 'unknown', show(target)),
                          key=f['f'] + ':advance', witness=wit)
            continue
        if need_all:
            done = s.entails_le0(sub(size, pos)) or equal(s, size, pos)
            if not done and not tr:
                done = s.entails_le0(size)
            if not done and tr and hvs(tr[-1][1]):
                # what is left is counted down in a variable of its own
                off, sz, cnt = tr[-1][:3]
                left = sub(add(off, sz), size)
                z = induct(w, left, w.before)
                if z is not None and equal(s, z, ZERO) and all(keeps(w, left, s2) for s2, v2 in ends if in_loop(s2, tr[-1][4])):
                    done = s.entails_le0(sub(sz, cnt))
            ctx.judge(done, R, '%s: success means everything' % name, f['file'], f['l'], f['f'],
                      'answers success with %s of %s bytes' % (show(pos), show(size)), key=f['f'] + ':all', witness=wit)
    return seen


def in_loop(s, loops):
    return bool(loops) and any(e[0] == 'loop' and e[1] == loops[-1] for e in s.ev)


def together(w, x, d):
    """two loop variables that start out equal and move by the same amounts"""
    if not hvs(d):
        return False
    z = induct(w, d, w.before)
    lids = [lid for lid, pre, head in x.heads for v in head.store.values() if v in hvs(d)]
    return z is not None and equal(w.s, z, ZERO) and all(
        keeps(w, d, s2) for n, fn, s2, again in x.iter_ends if again and any(e[0] == 'loop' and e[1] in lids for e in s2.ev))


def keeps(w, expr, s):
    n = induct(w, expr, lambda h: w.after(h, s))
    return n is not None and equal(s, n, expr)


def other(prog, x, s, f, io, base, size, way, res, ends):
    """the transfers of another path through the same loop"""
    lids = [e[1] for e in s.ev if e[0] == 'loop']
    for s2, v2 in list(ends) + list(res):
        w2 = Walk(prog, x, s2, f, io, base, size, way)
        for t in w2.list:
            if t[4] and t[4][-1] in lids and hvs(t[0]):
                return [t]
    return []


def datagram(prog, cls):
    return any('Udp' in c for c in [cls] + list(prog.bases(cls)))


def p03(ctx):
    prog = ctx.prog
    io = io_usrs(prog)
    F, W, N, U = 'full-read', 'whole-write', 'read-count', 'count-used'
    ctx.rule(F, 'every implementation of read_fully answers success only on paths on which the pieces it read tile the buffer: the first starts at its '
                'beginning, each starts where the one before ended, none exceeds what is left, together they are the size; the count it reports is what it read')
    ctx.rule(W, 'every implementation of write answers success only when the pieces it sent tile the data in the same way')
    ctx.rule(N, 'every implementation of read that answers success has put the bytes at the beginning of the buffer, no more than its size, '
                'reports exactly the number the transfer below it answered, and that number is not zero')
    ctx.rule(U, 'whoever reads with a short read takes the reported count as the length of what it got')
    from rules.memory import LOCAL
    for base, n, R, way in ((READER, 'read_fully', F, 'r'), (WRITER, 'write', W, 'w'), (READER, 'read', N, 'r')):
        for f in implementations(prog, base, n):
            if f['file'] in LOCAL or f['file'].endswith('io_memory.cpp'):
                continue
            yield_one(ctx, prog, io, f, n, R, way)
    tls(ctx, prog, io)
    used(ctx, prog, io, U)


def yield_one(ctx, prog, io, f, n, R, way):
    x = X(prog, max_depth=4, opaque=io)
    x.unaliased = True
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    ps = f['params']
    base, size = ('p', ps[0]['n']), ('p', ps[1]['n'])
    here = (f['file'], f['l'], f['f'])
    name = f['f'].replace('sps::', '')
    if n == 'read':
        counts(ctx, prog, io, f, x, res, base, size, R, name, here)
        return
    seen = tile(ctx, R, f, prog, x, res, io, way, base, size, None)
    if not seen and not unreachable_success(res):
        ctx.fail(R, '%s: transfers what it is given' % name, *here, 'nothing on any path transfers the buffer', key=f['f'] + ':none')
    if n == 'read_fully':
        out = ('p', ps[2]['n'])
        loc = ('D', out)
        for s, v in res:
            s = succeed(s, v)
            if s is None or s.truth(eqatom(out, ('null',))) is True:
                continue
            passed = any(e[0] == 'call' and any(a == out for a in e[4]) for e in s.ev)
            got = s.store.get(loc)
            known = s.truth(eqatom(out, ('null',))) is False
            if passed:
                ctx.ok(R, '%s: the count' % name)
                continue
            total = ZERO
            w = Walk(prog, x, s, f, io, base, size, 'r')
            for t in w.list:
                if t[2] != ZERO:
                    total = add(t[0], t[2])
            ctx.judge(known and got is not None and (equal(s, got, total) or equal(s, got, size) or together(w, x, sub(got, total)) or got[:2] == ('mr', 'gcount') and got[2][:2] == ('M', 'read')), R, '%s: the count' % name, *here,
                      'answers success and reports %s of %s bytes' % (show(got) if got else 'nothing', show(total)), key=f['f'] + ':count', witness=C.witness(s, v))


def unreachable_success(res):
    return not any(succeed(s, v) for s, v in res)


def succeed(s, v):
    """the state of the path if it answers success"""
    if v[0] == 'i':
        return s if v[1] == 0 else None
    t = s.truth(eqatom(v, ZERO))
    if t is False:
        return None
    if t is None:
        return s.assume(eqatom(v, ZERO), True)
    return s


def counts(ctx, prog, io, f, x, res, base, size, R, name, here):
    ps = f['params']
    cnt = ps[2]['n']
    dgram = datagram(prog, f['cls'])
    for s, v in res:
        s = succeed(s, v)
        if s is None:
            continue
        wit = C.witness(s, v)
        w = Walk(prog, x, s, f, io, base, size, 'r')
        tr = [t for t in w.list if t[2] != ZERO]
        copies = [e for e in s.ev if e[0] == 'call' and e[1] in ('memcpy', 'memmove', 'std::memcpy') and clean(C.vargs(e)[0]) == base]
        got = final(s, cnt)
        msg = [e for e in s.ev if e[0] == 'call' and e[1] in ('st_recvmsg', 'recvmsg')]
        if copies:
            n = C.vargs(copies[-1])[2]
        elif tr:
            off, sz, n, i, loops, e = tr[-1]
            at = C.line_of(e) if e[0] == 'call' else (e[5], e[4], e[6])
            ctx.judge(n[0] != 'unknown', R, '%s: the answer of the transfer' % name, *at, 'answers success although the transfer may have failed',
                      key=f['f'] + ':answer', witness=wit)
            ctx.judge(equal(s, off, ZERO), R, '%s: to the beginning of the buffer' % name, *at, 'reads to offset %s' % show(off), key=f['f'] + ':start', witness=wit)
            ctx.judge(s.entails_le0(sub(wide(sz), size)), R, '%s: no more than fits' % name, *at, 'asks for %s bytes, %s fit' % (show(sz), show(size)),
                      key=f['f'] + ':room', witness=wit)
        elif msg:
            n = msg[-1][5]
        else:
            ctx.judge(got is not None and equal(s, got, ZERO) and wraps(prog, f, io), R, '%s: success means something was read' % name, *here,
                      'answers success although nothing was read', key=f['f'] + ':none', witness=wit)
            continue
        ctx.judge(got is not None and equal(s, got, n), R, '%s: reports what was read' % name, *here, 'reports %s, %s bytes were read'
                  % (show(got) if got else 'nothing', show(n)), key=f['f'] + ':count', witness=wit)
        if not dgram and not wraps(prog, f, io):
            ctx.judge(s.entails_le0(sub(I(1), n)) or s.entails_le0(sub(I(1), got)) or below(s, n) or asked(s, n, size), R, '%s: success is not empty' % name, *here,
                      'answers success with %s bytes, which may be none' % show(n), key=f['f'] + ':empty', witness=wit)


def asked(s, n, size):
    """not empty when at least one byte was asked for"""
    s = s.assume(('le0', sub(I(1), size)), True)
    for t in set(subterms(n)):
        if s is not None and t[:1] == ('mr',) and t[1] == 'gcount':
            s = s.assume(('le0', scale(t, -1)), True)
            if s is not None and s.truth(eqatom(t, ZERO)) is False:
                s = s.assume(('le0', sub(I(1), t)), True)
    return s is None or s.entails_le0(sub(I(1), n))


def wraps(prog, f, io):
    """a body over a connection: where it ends is a matter of its framing (P10)"""
    return 'IURLProtocol' in ' '.join(prog.bases(f['cls'])) and 'File' not in f['cls'] or f['cls'].startswith('sps::Http')


def below(s, n):
    """the count that a read below reported: not empty by this same rule"""
    return n[0] == 'out' and n[1].rsplit('::', 1)[-1] == 'read'


def final(s, cnt):
    for k, v in s.store.items():
        if k == ('X', ('p', cnt)):
            return v
    return None


# ---------------------------------------------------------------------- what lies between the socket and TLS
RESET, INFO, PENDING = 1, 3, 10


def field(t):
    return t[1][2] if t[0] == 'ld' and t[1][0] == 'F' else t


def touches(prog, f, names):
    return any(x.get('k') == 'call' and x.get('f') in names for x in walk(f['body']))


def tls(ctx, prog, io):
    R = 'tls'
    ctx.rule(R, 'what TLS produced is sent whole before it is discarded and before more is produced; what the peer sent goes whole to the decoder '
                'and is never discarded')
    fs = [f for f in prog.funcs.values() if f.get('body') and f['file'].startswith('src/') and touches(prog, f, ('SSL_write', 'SSL_do_handshake', 'BIO_write', 'BIO_ctrl'))]
    readers = set()
    for f in fs:
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('f') == 'BIO_write' and x.get('a'):
                a = x['a'][0]
                if a.get('k') == 'mem':
                    readers.add(a.get('q') or a.get('f'))
    n = 0
    for f in sorted(fs, key=lambda f: (f['file'], f['l'])):
        x = flow.Exec(prog, max_depth=1, opaque=io)
        res = x.run(f)
        ctx.see(x)
        for s, v in list(res) + [(s, None) for _, _, s, again in x.iter_ends if again]:
            wit = C.witness(s, v)
            sent = None          # what was looked at in the memory of the encoder and sent
            owed = None          # encrypted, not sent yet
            got = None           # received, not decoded yet
            for e in s.ev:
                if e[0] != 'call':
                    continue
                a = C.vargs(e)
                nm = e[1].rsplit('::', 1)[-1]
                if e[1] == 'SSL_write' and not s.entails_le0(e[5]):
                    n += 1
                    if owed is not None:
                        ctx.fail(R, 'what is encrypted is sent', *C.line_of(owed), 'encrypts more although this was not sent', key=f['f'] + ':owed', witness=wit)
                    owed, sent = e, None
                elif e[1] == 'BIO_ctrl' and a[1] == I(INFO):
                    out = [o[2] for o in e[9] if o[0] == 3]
                    look = (a[0], out[0] if out else None, e[5])
                    sent = ('look', look)
                elif nm == 'write' and e[2] in io and len(a) == 2:
                    ok = sent is not None and sent[0] == 'look' and sent[1][1] is not None and equal(s, a[0], sent[1][1]) and equal(s, a[1], sent[1][2])
                    n += 1
                    ctx.judge(ok, R, 'all that was encrypted is sent', *C.line_of(e), 'sends %s bytes from %s, which is not all that is pending' % (show(a[1]), show(a[0])),
                              key=f['f'] + ':part', witness=wit)
                    if s.truth(eqatom(e[5], ZERO)) is not False:
                        sent = ('sent', sent[1] if sent and sent[0] == 'look' else None)
                        owed = None
                elif e[1] in ('BIO_ctrl', 'BIO_reset') and (e[1] == 'BIO_reset' or a[1] == I(RESET)):
                    n += 1
                    bio = a[0]
                    ok = sent is not None and sent[0] == 'sent' and sent[1] is not None and sent[1][0] == bio
                    empty = any(g[0] == 'call' and g[1] in ('BIO_ctrl_pending', 'BIO_ctrl') and C.vargs(g)[0] == bio and
                                (g[1] == 'BIO_ctrl_pending' or C.vargs(g)[1] == I(PENDING)) and s.truth(eqatom(g[5], ZERO)) is True for g in s.ev)
                    ctx.judge(ok or empty, R, 'nothing is discarded that was not passed on', *C.line_of(e),
                              'discards what is in %s' % show(bio), key=f['f'] + ':reset', witness=wit)
                elif nm == 'read' and e[2] in io and len(a) == 3:
                    if s.truth(eqatom(e[5], ZERO)) is True:
                        out = [o[2] for o in e[9] if o[0] == 2]
                        if got is not None:
                            ctx.fail(R, 'what was received is decoded', *C.line_of(got[0]), 'reads more although this was not decoded', key=f['f'] + ':lost', witness=wit)
                        got = (e, a[0], out[0] if out else a[2])
                elif e[1] == 'BIO_write':
                    n += 1
                    ok = got is not None and equal(s, a[1], got[1]) and equal(s, a[2], got[2])
                    ctx.judge(ok, R, 'all that was received is decoded', *C.line_of(e), 'hands %s bytes at %s to the decoder, received were %s'
                              % (show(a[2]), show(a[1]), show(got[2]) if got else 'none'), key=f['f'] + ':decode', witness=wit)
                    got = None
            if v is None or succeed(s, v) is not None:
                if owed is not None:
                    ctx.fail(R, 'what is encrypted is sent', *C.line_of(owed), 'goes on although this was not sent', key=f['f'] + ':owed', witness=wit)
                if got is not None:
                    ctx.fail(R, 'what was received is decoded', *C.line_of(got[0]), 'goes on although this was not decoded', key=f['f'] + ':lost', witness=wit)
                if sent is not None and sent[0] == 'sent' and not any(
                        e[0] == 'call' and (e[1] == 'BIO_reset' or e[1] == 'BIO_ctrl' and C.vargs(e)[1] == I(RESET)) for e in s.ev):
                    ctx.fail(R, 'what is sent is not sent again', f['file'], f['l'], f['f'], 'what was sent stays pending and is sent again', key=f['f'] + ':again', witness=wit)


# ---------------------------------------------------------------------- the callers of short reads
def used(ctx, prog, io, R):
    fs = []
    for f in prog.funcs.values():
        if not f.get('body') or not f['file'].startswith('src/') or f['file'].endswith('io_memory.cpp'):
            continue
        for x in walk(f['body']):
            if x.get('k') == 'call' and (x.get('f') or '').rsplit('::', 1)[-1] == 'read' and x.get('u') in io:
                fs.append(f)
                break
    for f in sorted(fs, key=lambda f: (f['file'], f['l'])):
        x = flow.Exec(prog, max_depth=1, opaque=io)
        x.unaliased = True
        res = x.run(f)
        ctx.see(x)
        sites = {}
        for s, v in list(res) + [(s, None) for _, _, s, again in x.iter_ends if again]:
            for i, e in enumerate(s.ev):
                if e[0] != 'call' or e[1].rsplit('::', 1)[-1] != 'read' or e[2] not in io or len(e[4]) < 3 or e[8] != f['f']:
                    continue
                a = C.vargs(e)
                if s.truth(eqatom(e[5], ZERO)) is False or a[1] == I(1):
                    continue
                s2 = succeed(s, v) if v is not None else s
                if s2 is None:
                    continue
                o = [y[2] for y in e[9] if y[0] == 2]
                if not o or (e[4][2][0] == 'ref' and e[4][2][1][0] in ('X', 'D')):
                    ctx.ok(R, '%s: hands the count on' % f['f'].replace('sps::', ''))
                    continue
                later = [t for g in s.ev[i + 1:] if not (g[0] == 'call' and 'log' in g[1].lower()) for t in g[1:] if isinstance(t, tuple)]
                hit = any(o[0] in set(subterms(t)) for t in later) or v is not None and o[0] in set(subterms(v)) or any(
                    o[0] in set(subterms(t)) for k, t in s.store.items() if k[0] != 'L' or k[2] not in ids_of(e)) 
                sites.setdefault(C.line_of(e), []).append((hit, a[1], s, v))
        for at, l in sorted(sites.items()):
            bad = [q for q in l if not q[0]]
            ctx.judge(len(bad) < len(l), R, '%s: takes the count as the length' % f['f'].replace('sps::', ''), *at,
                      'reads up to %s bytes and never looks at how many came' % show(l[0][1]), key=f['f'] + ':ignored',
                      witness=C.witness(bad[0][2], bad[0][3]) if bad else None)


def ids_of(e):
    """the variables the call itself writes"""
    return {y[1][2] for y in e[9] if y[1][0] == 'L'}
