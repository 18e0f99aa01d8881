"""P01: no read or write leaves its buffer"""
import math
import re
import flow
from flow import ZERO, NULL, I, show, sub, add, scale, lin, TT, NONNEG
from program import AnalysisError, walk
from rules import common as C, prims

BC, BR, AB, BW, CB = ('sps::BitContext', 'sps::BytesReader', 'sps::AVBuffer', 'sps::BytesWriter', 'sps::CharBuffer')
PRIM = (BC, BR, AB, BW, CB)
BITS = BC + '::buf_pos'         # ghost: bits left of a bit reader
LEFT = AB + '::buf_ptr'         # ghost: bytes left of a byte reader / buffer
ROOM = AB + '::buf_end'         # ghost: bytes that may still be appended
SIZEARG = re.compile(r'(len|size|sz|cap|count|nbyte|end|length)$|^n$|^len|^size|^zero_req_len$')
BYTE = ('p:u8', 'p:i8', 'p:void')
COUNT = ('i32', 'u32', 'u64', 'i64', 'u16', 'i16', 'u8')
# C functions: (pointer argument, size argument) pairs, and the bound of their result
CFN = {
    'memcpy': ((0, 2), (1, 2)), 'memmove': ((0, 2), (1, 2)), 'memset': ((0, 2),), 'memcmp': ((0, 2), (1, 2)),
    'read': ((1, 2),), 'write': ((1, 2),), 'recv': ((1, 2),), 'send': ((1, 2),), 'recvfrom': ((1, 2),), 'sendto': ((1, 2),),
    'st_read': ((1, 2),), 'st_write': ((1, 2),), 'st_recvfrom': ((1, 2),), 'st_sendto': ((1, 2),), 'st_read_fully': ((1, 2),),
    'SSL_read': ((1, 2),), 'SSL_write': ((1, 2),), 'srt_recvmsg': ((1, 2),), 'srt_sendmsg': ((1, 2),), 'srt_sendmsg2': ((1, 2),),
    'srt_recvmsg2': ((1, 2),), 'http_parser_execute': ((2, 3),), 'strncpy': ((0, 2),), 'memchr': ((0, 2),),
}
BOUNDED = {'read': 2, 'write': 2, 'recv': 2, 'send': 2, 'recvfrom': 2, 'sendto': 2, 'st_read': 2, 'st_write': 2, 'st_recvfrom': 2,
           'st_sendto': 2, 'SSL_read': 2, 'SSL_write': 2, 'srt_recvmsg': 2, 'srt_sendmsg': 2, 'http_parser_execute': 3}
SIZEOF = {'u8': 1, 'i8': 1, 'b': 1, 'void': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'f32': 4}


def arr(t):
    m = re.match(r'a(\d+):(.*)$', t or '')
    return (int(m.group(1)), m.group(2)) if m else None


class Mem(flow.Exec):
    def __init__(self, prog, root, inline, depth=10):
        super().__init__(prog, inline=inline, max_depth=depth)
        self.root = root
        self.info = info(prog)
        self.obl = {}           # (rule, func, line, what) -> [n ok, n bad, first bad state]
        self.counts = set()     # sizes of buffers
        self.room = {}           # pointer term -> bytes behind it
        self.callmods = self._mods
        self.unaliased = True
        self._addr = 0
        self.merge = join
        for k in ('acquire', 'acquire_bits', 'size', 'size_bits', 'read_bits', 'read_int8', 'read_int16', 'read_int24', 'read_int32',
                  'read_bytes', 'skip_read_bytes', 'pos', 'init', 'write_bytes', 'skip_write_bytes', 'write_bits', 'write_int8',
                  'write_int16', 'write_int24', 'write_int32'):
            self.model[BC + '::' + k] = self.on(k, self.bit)
        for k in ('acquire', 'size', 'pos', 'read_int8', 'read_int16', 'read_int24', 'read_int32', 'read_bytes', 'skip_bytes',
                  'read_reverse_bytes'):
            self.model[BR + '::' + k] = self.on(k, self.byte)
        self.model[BR + '::create_reader'] = self.creator(BR)
        self.model[BW + '::create_writer'] = self.creator(BW)
        for k in ('acquire', 'write_int8', 'write_int16', 'write_int24', 'write_int32', 'write_bytes', 'skip'):
            self.model[BW + '::' + k] = self.on(k, self.writer)
        for k in ('buffer', 'pos', 'end', 'size', 'cap_size', 'no_rewind_cap_size', 'remain', 'skip', 'rewind', 'append', 'clear'):
            self.model[AB + '::' + k] = self.on(k, self.avbuf)
        for c in (CB, 'sps::IBuffer', 'sps::AVPacket'):
            for k in ('buffer', 'size', 'cap', 'append', 'skip', 'pos', 'remain'):
                self.model[c + '::' + k] = self.on(k, self.cbuf)

    def _mods(self, e):
        return frozenset()

    def touched(self, s, e, ov, args):
        """readers and buffers a callee that is not expanded may have moved: those it is given, and those not of this activation"""
        mods = {q for q in flow.Exec.callmods(self, e) if q.startswith(PRIM)}
        if AB + '::buf_end' in mods or AB + '::buf_ptr' in mods:
            mods |= {LEFT, ROOM}
        if not mods:
            return
        n = next(self.cnt)
        given = [a for a in args] + ([ov] if ov is not None else [])
        for l in list(s.store):
            if l[0] == 'F' and l[2] in mods:
                R = l[1]
                root = flow.rootof(R)
                mine = root[0] in ('L', 'T') or root[0] == 'X' or root[0] == 'D' and root[1][0] in ('p', 'r', 'new')
                if not mine or any(flow.contains(a, R) or flow.contains(a, root) for a in given):
                    del s.store[l]
        for q in mods:
            s.ver[q] = n

    # ------------------------------------------------------------------ obligations
    def judge(self, s, rule, what, ok, e, fr, msg):
        k = (rule, fr.fn['f'], e.get('l'), what, fr.fn['file'])
        r = self.obl.setdefault(k, [0, 0, None, None, 0])
        if ok is None:
            r[4] += 1
        elif ok:
            r[0] += 1
        else:
            r[1] += 1
            if r[2] is None:
                r[2], r[3] = s, msg

    def fits(self, s, n, have):
        """0 <= n <= have"""
        if have is None:
            return False
        return (n[0] == 'i' and n[1] >= 0 or s.entails_le0(scale(n, -1))) and (n == have or s.entails_le0(sub(n, have)))

    def need(self, s, rule, what, n, have, e, fr):
        ok = None if have is None else self.fits(s, n, have)
        self.judge(s, rule, what, ok, e, fr, '%s needs %s, there is %s' % (what, show(n), show(have) if have is not None else 'unknown'))

    # ------------------------------------------------------------------ the room behind a pointer, in bytes
    def ext(self, s, p, fr, rw='r'):
        if p in self.room:
            return self.room[p]
        if p[0] == 'i':
            return ZERO
        if p[0] in ('tr', 'cv') and len(p) > 2:
            return self.ext(s, p[-1], fr)
        if p[0] == 's':
            return I(len(p[1]) + 1)
        if p[0] == 'null':
            return ZERO
        if p[0] == 'cstr':
            return add(self.strsize(p[1]), I(1))
        if p[0] == 'call' and p[1] in ('c_str', 'data'):
            return add(self.strsize(p[2]), I(1 if p[1] == 'c_str' else 0))
        if p[0] == 'lin':
            c, d = lin(p)
            ps = [k for k, v in d.items() if v == 1 and self.is_base(k)]
            if len(ps) != 1:
                return None
            r = self.ext(s, ps[0], fr)
            return None if r is None else sub(r, sub(p, ps[0]))
        if p[0] == 'ad':
            l = p[1]
            if l[0] == 'I':
                r = self.ext(s, ('ad', l[1]) if l[1][0] != 'D' else l[1][1], fr)
                z = self.elem(s, l[1], fr)
                return None if r is None or z is None else sub(r, scale(l[2], z))
            t = self.loctype(l, fr)
            if t is None:
                return None
            if l[0] == 'F' and not arr(t):
                for fl in (self.p.records.get(l[2].rsplit('::', 1)[0]) or {}).get('fields', []):
                    if fl['q'] == l[2] and fl.get('sz'):
                        return I(fl['sz'])
            a = arr(t)
            n = 1
            while a:
                n *= a[0]
                t = a[1]
                a = arr(t)
            z = self.sizeof(t)
            return None if z is None else I(n * z)
        if p[0] == 'new':
            return None
        return None

    def is_base(self, k):
        if k in self.room or k[0] in ('ad', 'new', 'cstr', 's'):
            return True
        t = TT.get(k, '')
        return t.startswith('p:') or k[0] in ('call',) and k[1] in ('c_str', 'data')

    def strsize(self, v):
        if v[0] == 's':
            return I(len(v[1]))
        t = ('call', 'size', v)
        TT.setdefault(t, 'u64')
        return t

    def sizeof(self, t):
        if t in SIZEOF:
            return SIZEOF[t]
        if t.startswith('p:'):
            return 8
        if t.startswith('e:'):
            return 4
        if t.startswith('R:'):
            r = self.p.records.get(t[2:])
            return (r or {}).get('size')
        return None

    def loctype(self, l, fr):
        if l[0] == 'L':
            f = fr
            while f is not None:
                if f.fid == l[1]:
                    return self.local_type(f, l[2])
                f = f.parent
            return None
        if l[0] == 'F':
            c = l[2].rsplit('::', 1)[0]
            for fl in (self.p.records.get(c) or {}).get('fields', []):
                if fl['q'] == l[2]:
                    return fl['t']
        if l[0] == 'G':
            m = re.search(r'<(a\d+:.*)>$', l[1])
            if m:
                return m.group(1)
            g = self.p.globals.get(l[1])
            return g.get('t') if isinstance(g, dict) else None
        if l[0] == 'I':
            a = arr(self.loctype(l[1], fr))
            return a[1] if a else None
        return None

    def elem(self, s, l, fr):
        if l[0] == 'D':
            t = TT.get(l[1], '')
            return self.sizeof(t[2:]) if t.startswith('p:') else (1 if l[1] in self.room else None)
        t = self.loctype(l, fr)
        a = arr(t)
        if a:
            return self.sizeof(a[1])
        return self.sizeof(t) if t else None

    def load(self, s, loc, ty='?'):
        v = super().load(s, loc, ty)
        if loc[0] == 'F' and v[0] == 'ld':
            q = v[1][2] if v[1][0] == 'F' else loc[2]
            r = self.info.ranges.get(q)
            if r and v not in s.eq:
                for b in (sub(I(r[0]), v), sub(v, I(r[1]))):
                    if b not in s.le:
                        know(s, b)
            if q in self.info.nonneg:
                NONNEG.add(v)
            z = self.info.pairs.get(q)
            if z and v not in self.room and v[1][0] == 'F':
                n = super().load(s, ('F', v[1][1], z), 'u64')
                if n[0] == 'ld':
                    NONNEG.add(n)
                self.room[v] = n
                if TT.get(v, '?') == '?':
                    TT[v] = 'p:u8'
        return v

    # ------------------------------------------------------------------ models of the primitives
    def on(self, name, h):
        def m(x, e, fr, s):
            out = []
            base = x.ev(e['obj'], fr, s) if e.get('arrow') else [(a, flow.addr(l)) for a, l in x.lv(e['obj'], fr, s)]
            for a, ov in base:
                if ov[0] == 'ref':
                    ov = x.load(a, ov[1], e['obj']['t'])
                for b, args in x.evargs(e, fr, a):
                    args = [x.load(b, q[1], '?') if q[0] == 'ref' else q for q in args]
                    out += h(b.copy(), name, flow.deref(ov), args, e, fr)
            return out
        return m

    def fresh(self, f, t, e=None):
        v = ('r', f, next(self.cnt))
        TT[v] = t
        return v

    def fork(self, s, f, fact, e):
        """an answer of type error_t: success with the fact, or failure"""
        v = self.fresh(f, 'i32')
        a = s.copy()
        out = []
        ok = all(a.feasible_le(t) for t in fact)
        if ok:
            for t in fact:
                know(a, t)
            out.append((a, ZERO))
        b = s.copy().assume(flow.eqatom(v, ZERO), False)
        t = fact[-1]
        if not all((t[0] == 'i' and t[1] <= 0) or b.entails_le0(t) for t in fact):
            out.append((b, v))
        return out

    def raw(self, v, q):
        return v[0] == 'ld' and v[1][0] == 'F' and v[1][2] == q or v[0] == 'undef'

    def bits(self, s, R):
        v = self.load(s, ('F', R, BITS), 'u64')
        if self.raw(v, BITS):
            if v[0] == 'undef':
                v = ('ld', ('F', R, BITS), ('n', next(self.cnt)))
            TT[v] = 'u64'
            NONNEG.add(v)
            self.count(v)
            self.room[('bb', v)] = v
            s.store[('F', R, BITS)] = scale(v, 8)
            t = s.store.get(('F', R, BC + '::sz'))
            if t is not None and not self.raw(t, BC + '::sz'):
                know(s, sub(v, t))
            return scale(v, 8)
        return v

    def setbits(self, s, R, a):
        s.store[('F', R, BITS)] = a

    def floor8(self, t):
        c, d = lin(t)
        if any(v % 8 for v in d.values()):
            return None
        return flow.mklin(c // 8, {k: v // 8 for k, v in d.items()})

    def bit(self, s, k, R, args, e, fr):
        a = self.bits(s, R)
        f = BC + '::' + k
        if k == 'init':
            self.need(s, 'extent', 'reader of %s' % self.text(e, 0), args[1], self.ext(s, args[0], fr), e, fr)
            self.setbits(s, R, scale(args[1], 8))
            s.store[('F', R, BC + '::buf')] = args[0]
            s.store[('F', R, BC + '::sz')] = args[1]
            return [(s, ('void',))]
        if k in ('acquire', 'acquire_bits'):
            n = scale(args[0], 8) if k == 'acquire' else args[0]
            return self.fork(s, f, [scale(n, -1), sub(n, a)], e)
        if k == 'size_bits':
            return [(s, a)]
        if k == 'size':
            r = self.floor8(a)
            if r is None:
                r = ('div8', a)
                TT[r] = 'u64'
                know(s, sub(scale(r, 8), a))
            return [(s, r)]
        if k == 'pos':
            return [(s, self.bitpos(s, R, a))]
        if k == 'init':
            return [(s, ('void',))]
        if k.startswith('read_int') or k == 'read_bits' or k.startswith('write_int') or k == 'write_bits':
            if k in ('read_bits',):
                n = args[0]
            elif k == 'write_bits':
                n = args[1]
            else:
                n = I(int(k[len('read_int'):] if k.startswith('read') else k[len('write_int'):]))
            self.need(s, 'acquire', k if n[0] != 'i' else '%s(%s)' % (k, n[1]), n, a, e, fr)
            self.setbits(s, R, sub(a, n))
            v = ('void',)
            if k.startswith('read'):
                w = n[1] if n[0] == 'i' else 32
                v = self.fresh(f, 'u8' if w <= 8 else 'u16' if w <= 16 else 'u32')
                if w < 32 and w not in (8, 16):
                    know(s, sub(v, I((1 << w) - 1)))
                elif w == 32:
                    NONNEG.add(v)
            return [(s, v)]
        if k in ('read_bytes', 'write_bytes'):
            self.need(s, 'acquire', k, scale(args[1], 8), a, e, fr)
            self.need(s, 'extent', k + ' to/from ' + self.text(e, 0), args[1], self.ext(s, args[0], fr), e, fr)
            self.setbits(s, R, sub(a, scale(args[1], 8)))
            return [(s, ('void',))]
        if k in ('skip_read_bytes', 'skip_write_bytes'):
            self.need(s, 'acquire', k, scale(args[0], 8), a, e, fr)
            self.setbits(s, R, sub(a, scale(args[0], 8)))
            return [(s, ('void',))]
        raise AnalysisError('unmodelled ' + k)

    def bitpos(self, s, R, a):
        c, d = lin(a)
        for k, v in d.items():
            if v == 8 and ('bb', k) in self.room:
                off = self.floor8(sub(scale(k, 8), a))
                if off is not None:
                    return add(('bb', k), off)
        p, n = s.store.get(('F', R, BC + '::buf')), s.store.get(('F', R, BC + '::sz'))
        if p is not None and n is not None:
            off = self.floor8(sub(scale(n, 8), a))
            if off is not None:
                return add(p, off)
        v = self.fresh(BC + '::pos', 'p:u8')
        r = self.floor8(a)
        self.room[v] = r
        return v

    def left(self, s, R, q=LEFT):
        v = self.load(s, ('F', R, q), 'u64')
        if self.raw(v, q):
            if v[0] == 'undef':
                v = ('ld', ('F', R, q), ('n', next(self.cnt)))
            self.count(v)
            TT[v] = 'u64'
            NONNEG.add(v)
            s.store[('F', R, q)] = add(v, ZERO)
        return v

    def creator(self, cls):
        def m(x, e, fr, s):
            out = []
            for b, args in x.evargs(e, fr, s):
                args = [x.load(b, q[1], '?') if q[0] == 'ref' else q for q in args]
                b = b.copy()
                x.need(b, 'extent', '%s of %s' % ('reader' if cls == BR else 'writer', x.text(e, 0)), args[1], x.ext(b, args[0], fr), e, fr)
                v = x.fresh(e['f'], unref(e['t']))
                w = x.fresh(AB, 'R:std::shared_ptr<sps::AVBuffer>')
                b.store[('F', ('D', v), cls + '::buf')] = w
                R = ('D', w)
                b.store[('F', R, 'fixed')] = I(1)
                b.store[('F', R, LEFT)] = args[1] if cls == BR else ZERO
                b.store[('F', R, ROOM)] = args[1]
                b.store[('F', R, AB + '::buf')] = args[0]
                b.store[('F', R, AB + '::buf_cap')] = args[1]
                out.append((b, v))
            return out
        return m

    def inner(self, s, R, cls):
        v = self.load(s, ('F', R, cls + '::buf'), 'R:std::shared_ptr<sps::AVBuffer>')
        return flow.derefp(v)

    def byte(self, s, k, R, args, e, fr):
        R = self.inner(s, R, BR)
        a = self.left(s, R)
        f = BR + '::' + k
        fixed = ('F', R, 'fixed') in s.store
        if k == 'acquire':
            if fixed:
                return self.fork(s, f, [scale(args[0], -1), sub(args[0], a)], e)
            n = self.fresh(f, 'u64')
            self.count(n)
            out = []
            for b, v in self.fork(s, f, [scale(args[0], -1), sub(args[0], n), sub(a, n)], e):
                b.store[('F', R, LEFT)] = n
                out.append((b, v))
            return out
        if k == 'size':
            return [(s, a)]
        if k == 'pos':
            if fixed:
                return [(s, add(s.store[('F', R, AB + '::buf')], sub(s.store[('F', R, AB + '::buf_cap')], a)))]
            v = self.fresh(f, 'p:u8')
            self.room[v] = a
            return [(s, v)]
        if k.startswith('read_int'):
            w = int(k[8:])
            self.need(s, 'acquire', k, I(w // 8), a, e, fr)
            s.store[('F', R, LEFT)] = sub(a, I(w // 8))
            v = self.fresh(f, 'u8' if w <= 8 else 'u16' if w <= 16 else 'u32')
            if w == 24:
                know(s, sub(v, I((1 << 24) - 1)))
            return [(s, v)]
        n = args[-1]
        self.need(s, 'acquire', k, n, a, e, fr)
        s.store[('F', R, LEFT)] = sub(a, n)
        if k == 'read_bytes':
            self.need(s, 'extent', k + ' to ' + self.text(e, 0), n, self.ext(s, args[0], fr), e, fr)
            self.forget(s, args[0])
        elif k == 'read_reverse_bytes':
            # writes args[0][0], [-1], ... [-(n-1)]
            p = add(args[0], sub(I(1), n)) if args[0][0] != 'ad' else None
            self.back(s, args[0], n, e, fr)
            self.forget(s, args[0])
        return [(s, ('void',))]

    def back(self, s, p, n, e, fr):
        """n bytes ending at p"""
        root = p
        off = ZERO
        if p[0] == 'lin':
            c, d = lin(p)
            ps = [k for k, v in d.items() if v == 1 and self.is_base(k)]
            if len(ps) == 1:
                root = ps[0]
                off = sub(p, root)
        elif p[0] == 'ad' and p[1][0] == 'I':
            off = p[1][2]
            root = ('ad', p[1][1])
        have = self.ext(s, root, fr)
        ok = have is not None and s.entails_le0(sub(add(off, I(1)), have)) and s.entails_le0(sub(n, add(off, I(1)))) and s.entails_le0(scale(n, -1))
        self.judge(s, 'extent', 'read_reverse_bytes to ' + self.text(e, 0), ok, e, fr, 'bytes %s back from offset %s of %s' % (
            show(n), show(off), show(have) if have else 'unknown'))

    def forget(self, s, p):
        l = p[1] if p[0] == 'ad' else None
        if l is not None:
            while l[0] == 'I':
                l = l[1]
            self.clear_obj(s, l)
            v = ('hv', 'buf', next(self.cnt))
            t = self.loctype_any(l)
            TT[v] = t
            if l[0] in ('L', 'F'):
                s.store[l] = v
        s.ver['[]'] = next(self.cnt)

    def loctype_any(self, l):
        return None

    def writer(self, s, k, R, args, e, fr):
        R = self.inner(s, R, BW)
        a = self.left(s, R, ROOM)
        f = BW + '::' + k
        if k == 'acquire':
            return self.fork(s, f, [scale(args[0], -1), sub(args[0], a)], e)
        n = I(int(k[9:]) // 8) if k.startswith('write_int') else args[-1]
        self.need(s, 'acquire', k, n, a, e, fr)
        s.store[('F', R, ROOM)] = sub(a, n)
        if k == 'write_bytes':
            self.need(s, 'extent', k + ' from ' + self.text(e, 0), n, self.ext(s, args[0], fr), e, fr)
        return [(s, ('void',))]

    def avbuf(self, s, k, R, args, e, fr):
        a, r = self.left(s, R), self.left(s, R, ROOM)
        f = AB + '::' + k
        if k == 'size':
            return [(s, a)]
        if k == 'remain':
            return [(s, r)]
        if k == 'pos':
            v = ('avpos', R, a)
            TT[v] = 'p:u8'
            self.room[v] = a
            return [(s, v)]
        if k == 'end':
            v = ('avend', R, r)
            TT[v] = 'p:u8'
            self.room[v] = r
            return [(s, v)]
        if k == 'buffer':
            v = s.store.get(('F', R, AB + '::buf'))
            if v is None:
                v = ('avbuf', R)
                TT[v] = 'p:u8'
                self.room[v] = self.capof(s, R)
            return [(s, v)]
        if k == 'skip':
            self.need(s, 'acquire', k, args[0], a, e, fr)
            s.store[('F', R, LEFT)] = sub(a, args[0])
            return [(s, ('void',))]
        if k == 'append':
            # how full a buffer was left by an earlier call is not known here
            d = lin(r)[1]
            entry = len(d) == 1 and any(t[0] == 'ld' and t[1][0] == 'F' and t[1][2] in GHOST for t in d) and \
                not any(t in lin(q)[1] for q in s.le for t in d)
            self.need(s, 'acquire', k, args[0], None if entry and not self.fits(s, args[0], r) else r, e, fr)
            s.store[('F', R, LEFT)] = add(a, args[0])
            s.store[('F', R, ROOM)] = sub(r, args[0])
            return [(s, ('void',))]
        if k == 'clear':
            s.store[('F', R, LEFT)] = ZERO
            s.store[('F', R, ROOM)] = self.capof(s, R)
            return [(s, ('void',))]
        if k == 'rewind':
            n = self.fresh(f, 'u64')
            NONNEG.add(n)
            know(s, sub(r, n))
            s.store[('F', R, ROOM)] = n
            return [(s, ('void',))]
        c = self.capof(s, R)
        return [(s, c)]

    def capof(self, s, R):
        v = self.load(s, ('F', R, AB + '::buf_cap'), 'u64')
        TT[v] = TT.get(v, 'u64')
        NONNEG.add(v)
        return v

    def cbuf(self, s, k, R, args, e, fr):
        ln = self.load(s, ('F', R, CB + '::len'), 'u32')
        cp = self.load(s, ('F', R, CB + '::cap_len'), 'u32')
        for v in (ln, cp):
            if v[0] != 'i':
                TT.setdefault(v, 'u32')
        if not (ln == cp):
            know(s, sub(ln, cp))
        if k == 'size':
            return [(s, ln)]
        if k == 'cap':
            return [(s, cp)]
        if k == 'remain':
            return [(s, sub(cp, ln))]
        if k == 'buffer':
            v = ('cbuf', R)
            TT[v] = 'p:u8'
            self.room[v] = cp
            return [(s, v)]
        if k == 'pos':
            v = ('cpos', R, ln)
            TT[v] = 'p:u8'
            self.room[v] = sub(cp, ln)
            return [(s, v)]
        n = args[-1]
        self.need(s, 'acquire', k, n, sub(cp, ln), e, fr)
        if k == 'append':
            self.need(s, 'extent', k + ' of ' + self.text(e, 0), n, self.ext(s, args[0], fr), e, fr)
        s.store[('F', R, CB + '::len')] = add(ln, n)
        return [(s, ('void',))]

    # ------------------------------------------------------------------ calls with a buffer and a size
    def text(self, e, i):
        a = e['args'][i] if i < len(e.get('args', ())) else {}
        for n in walk(a):
            if n.get('k') in ('var', 'mem'):
                return n.get('n') or n.get('q', '').rsplit('::', 1)[-1] or 'buffer'
            if n.get('k') == 'call':
                return n.get('f', 'buffer').rsplit('::', 1)[-1] + '()'
        return 'buffer'

    def pairs_of(self, e, g):
        f = e.get('f', '')
        pt = [p.lstrip('c') if p.startswith('cp:') else p for p in e.get('pt', [])]
        if f in CFN and not f.startswith('sps::'):
            return CFN[f]
        if g is None:
            g = self.p.funcs.get(e.get('u'))
        if g is None:
            im = self.p.impls(e['u']) if e.get('u') else []
            g = im[0] if im else None
        return pairs(g) if g is not None else ()

    def sink(self, e, fr, s, args, g=None):
        for pi, ni in self.pairs_of(e, g):
            if pi >= len(args) or ni >= len(args):
                continue
            p, n = args[pi], args[ni]
            if p[0] == 'ref':
                p = self.load(s, p[1], '?')
            if n[0] == 'ref':
                n = self.load(s, n[1], '?')
            self.need(s, 'extent', '%s of %s' % (e['f'].rsplit('::', 1)[-1], self.text(e, pi)), n, self.ext(s, p, fr), e, fr)

    def invoke(self, e, fr, s, ov, args):
        self.sink(e, fr, s, args)
        return super().invoke(e, fr, s, ov, args)

    def construct(self, e, cls, loc, args, fr, s):
        if cls == AB and args:
            s = s.copy()
            self.newbuf(s, e, loc, args, fr)
            return [s]
        if e.get('k') == 'ctor' and args:
            for g in self.p.ctors(cls):
                if g.get('u') == e.get('u'):
                    self.sink(dict(e, f=cls), fr, s, args, g)
        return super().construct(e, cls, loc, args, fr, s)

    def unknown(self, e, f, fr, s, ov, args):
        s = s.copy()
        out = super().unknown(e, f, fr, s, ov, args)
        for x, v in out:
            self.touched(x, e, ov, args)
        name = f.rsplit('::', 1)[-1]
        res = []
        for x, v in out:
            if f in BOUNDED and len(args) > BOUNDED[f]:
                know(x, sub(v, args[BOUNDED[f]]))
                res.append((x, v))
            elif self.reads(e, f) is not None and len(args) > self.reads(e, f)[1] and args[self.reads(e, f)[1]][0] == 'ref':
                ni, out_i = self.reads(e, f)
                b = x.copy().assume(flow.eqatom(v, ZERO), False)
                res.append((b, v))
                x = x.copy().assume(flow.eqatom(v, ZERO), True)
                n = self.load(x, args[out_i][1], 'u64')
                know(x, sub(n, args[ni]))
                NONNEG.add(n)
                res.append((x, v))
            elif name in ('read', 'read_fully') and len(args) == 3 and args[2][0] == 'ref' and f.startswith('sps::'):
                b = x.copy().assume(flow.eqatom(v, ZERO), False)
                res.append((b, v))
                x = x.copy().assume(flow.eqatom(v, ZERO), True)
                n = self.load(x, args[2][1], 'u64')
                if name == 'read':
                    know(x, sub(n, args[1]))
                res.append((x, v))
            else:
                res.append((x, v))
        return res

    def reads(self, e, f):
        """(index of the size, index of the count it reports) of a function of the repository that reads into a buffer"""
        g = self.p.funcs.get(e.get('u'))
        if g is None:
            im = self.p.impls(e['u']) if e.get('u') else []
            g = im[0] if im else None
        if g is None or 'read' not in f.rsplit('::', 1)[-1] and 'recv' not in f.rsplit('::', 1)[-1]:
            return None
        pr = pairs(g)
        for i, q in enumerate(g['params']):
            if pr and i > pr[0][1] and q['t'] == 'r:u64':
                return pr[0][1], i
        return None

    def newbuf(self, s, e, R, args, fr):
        if len(args) == 2:
            p, end, cp = None, ZERO, args[0]
        elif len(args) == 3:
            p, end, cp = args[0], ZERO, args[1]
        else:
            p, end, cp = args[0], args[1], args[2]
        if p is None:
            p = self.fresh(AB, 'p:u8')
            self.room[p] = cp
        else:
            self.need(s, 'extent', 'buffer over ' + self.text(e, 0), cp, self.ext(s, p, fr), e, fr)
            if end != ZERO and end != cp:
                self.need(s, 'extent', 'filled part of ' + self.text(e, 0), end, cp, e, fr)
        s.store[('F', R, LEFT)] = end
        s.store[('F', R, ROOM)] = sub(cp, end)
        s.store[('F', R, AB + '::buf')] = p
        s.store[('F', R, AB + '::buf_cap')] = cp
        s.store[('F', R, 'fixed')] = ZERO

    def make(self, e, fr, s):
        inner = flow.tmplarg(e['t'])
        if inner == AB:
            out = []
            for x, args in self.evargs(dict(e, pt=[]), fr, s):
                args = [self.load(x, a[1], '?') if a[0] == 'ref' else a for a in args]
                x = x.copy()
                v = ('new', inner, next(self.cnt))
                TT[v] = e['t']
                self.newbuf(x, e, ('D', v), args, fr)
                out.append((x, v))
            return out
        out = super().make(e, fr, s)
        if inner and inner.endswith('[]') and e.get('args'):
            for x, v in out:
                for q in reversed(x.ev):
                    if q[0] == 'make' and q[3] == v:
                        z = 1 if 'char' in inner or inner in ('u8[]', 'i8[]') else None
                        if z:
                            self.room[v] = scale(q[2][0], z)
                        break
        return out

    def count(self, v):
        self.counts.add(v)
        flow.SMALL.add(v)

    def e_bin(self, e, fr, s):
        out = super().e_bin(e, fr, s)
        if e['op'] != '-' or e.get('t') not in ('u32', 'u64'):
            return out
        res = []
        for x, v in out:
            # the difference of unsigned numbers wraps when it would be negative
            if v[0] == 'i' and v[1] >= 0 or v[0] != 'i' and x.entails_le0(scale(v, -1)):
                res.append((x, v))
                continue
            if v[0] == 'i':
                res.append((x, flow.I(v[1] % 2 ** int(e['t'][1:]))))
                continue
            y = x.assume(('le0', scale(v, -1)), True)
            if y is not None:
                res.append((y, v))
            y = x.assume(('le0', add(v, flow.I(1))), True)
            if y is not None:
                w = ('wrapped', v, e['t'])
                TT[w] = e['t']
                NONNEG.add(w)
                y = y.copy()
                know(y, sub(flow.I(2 ** 31), w))
                res.append((y, w))
        return res

    def conv(self, v, ty, s):
        if ty in ('i32', 'u32') and v[0] != 'i':
            c, d = lin(v)
            if all(k in self.counts or flow.isint(TT.get(k, '')) and TT[k] in ('u8', 'u16', 'i8', 'i16', 'i32', 'u32') for k in d):
                return v        # sizes of buffers stay below 2^31 (assumption)
        return super().conv(v, ty, s)

    def havoc(self, s, mods, fr, n):
        h = super().havoc(s, mods, fr, n)
        if fr.fn['u'] not in self.info.locals:
            self.info.locals[fr.fn['u']] = local_ranges(fr.fn)
        for i, r in self.info.locals[fr.fn['u']].items():
            v = h.store.get(('L', fr.fid, i))
            if v is not None and v[0] == 'hv':
                know(h, sub(I(r[0]), v))
                know(h, sub(v, I(r[1])))
        for x in walk(n):
            if x.get('k') == 'call' and x.get('f') in (BC + '::init', BC + '::operator=') or x.get('k') == 'asg' and x['a'].get('t', '') == 'R:' + BC:
                return h
        for k, v in s.store.items():
            if k[0] == 'F' and k[2] in KEPT and k not in h.store and flow.rootof(k)[0] in ('L', 'T', 'X', 'D'):
                h.store[k] = v
        return h

    def e_new(self, e, fr, s):
        out = super().e_new(e, fr, s)
        for x, v in out:
            n = x.ev[-1][2] if x.ev and x.ev[-1][0] == 'new' else None
            for q in reversed(x.ev):
                if q[0] == 'new' and q[3] == v:
                    n = q[2]
                    break
            z = self.sizeof(e['at'])
            if n is not None and z:
                self.room[v] = scale(n, z)
        return out

    # ------------------------------------------------------------------ loops
    def loop(self, n, fr, sts, o, cond, body, inc, do=False, pre=None):
        """like the engine's, with induction variables: what every iteration changes by the same amount (or only upwards)
        is its value before the loop plus that amount times the number of iterations"""
        mods = self.assigned([body, cond, inc], fr)
        exits = []
        if not do:
            base, F = self.branch(cond, fr, sts) if cond else (sts, [])
            exits += F
        else:
            base = sts
        base = join(self, [bare(s) for s in base]) if len(base) > 3 else base
        for s0 in base:
            saved = lambda o={k: list(v) for k, v in self.obl.items()}: {k: list(v) for k, v in o.items()}
            h = self.havoc(s0, mods, fr, n)
            for k in s0.store:
                if k[0] == 'F' and k[2] in GHOST and k not in h.store:
                    v = ('hv', k[2], next(self.cnt))
                    TT[v] = 'u64'
                    NONNEG.add(v)
                    h.store[k] = v if k[2] != BITS else scale(v, 8)
                    if k[2] == BITS:
                        self.room[('bb', v)] = v
            first = {k: v for k, v in h.store.items() if s0.store.get(k) != v}
            r, T, F = self.iteration(n, fr, h, cond, body, inc, do)
            const, up = {}, set()
            for k, v in first.items():
                v0 = s0.store.get(k)
                if v0 is None or not self.numeric(v0) or not self.numeric(v):
                    continue
                ds = [sub(x.store[k], v) if k in x.store and self.numeric(x.store[k]) else None for x in T]
                if any(d is None for d in ds):
                    continue
                if ds and all(d == ds[0] and d[0] == 'i' for d in ds):
                    const[k] = ds[0][1]
                elif ds and all(x.entails_le0(scale(d, -1)) for x, d in zip(T, ds)):
                    up.add((k, 1))
                elif ds and all(x.entails_le0(d) for x, d in zip(T, ds)):
                    up.add((k, -1))
            if const or up:
                self.obl = saved()
                h = h.copy()
                K = ('it', 'n', next(self.cnt))
                TT[K] = 'u64'
                self.count(K)
                NONNEG.add(K)
                for k, c in const.items():
                    h.store[k] = add(s0.store[k], scale(K, c))
                for k, sg in up:
                    M = ('it', 'm', next(self.cnt))
                    TT[M] = 'u64'
                    self.count(M)
                    NONNEG.add(M)
                    by8 = k[0] == 'F' and k[2] == BITS and all(self.floor8(sub(x.store[k], first[k])) is not None for x in T)
                    h.store[k] = add(s0.store[k], scale(M, 8 * sg if by8 else sg))
                r, T, F = self.iteration(n, fr, h, cond, body, inc, do)
            if T and (do and cond or r.brk):
                # the first iteration, and every other one: it begins where the condition just held
                self.obl = saved()
                rs = [self.iteration(n, fr, s0.copy(), cond, body, inc, True)]
                for t in join(self, [bare(x) for x in T]) if len(T) > 3 else [bare(x) for x in T]:
                    rs.append(self.iteration(n, fr, t, cond, body, inc, True))
                for q, _, G in rs[1:]:
                    exits += G + q.brk
                    o.ret += q.ret
                    for k, v in q.goto.items():
                        o.goto.setdefault(k, []).extend(v)
                r, T, F = rs[0]
            exits += F + r.brk
            o.ret += r.ret
            for k, v in r.goto.items():
                o.goto.setdefault(k, []).extend(v)
        o.n += exits

    def numeric(self, v):
        return v[0] not in ('ref', 'O', 'lam', 's', 'cat', 'mk', 'empty', 'null', 'cstr', 'atomv')

    def iteration(self, n, fr, h, cond, body, inc, do):
        hs = [h]
        if not do and cond:
            hs, _ = self.branch(cond, fr, hs)
        r = self.stmt(body, fr, hs)
        ends = r.n + r.cont
        if inc:
            e2 = []
            for s in ends:
                e2 += [x for x, _ in self.ev(inc, fr, s)]
            ends = e2
        T, F = self.branch(cond, fr, ends) if cond else (ends, [])
        return r, T, F

    # ------------------------------------------------------------------ element accesses
    def lv(self, e, fr, s):
        out = super().lv(e, fr, s)
        if e['k'] == 'idx' and not self._addr:
            for x, l in out:
                self.access(x, l, e, fr)
        elif e['k'] == 'un' and e['op'] == '*' and not self._addr:
            t = e['e'].get('t', '')
            if t in BYTE:
                for x, l in out:
                    self.access(x, l, e, fr)
        return out

    def access(self, s, l, e, fr):
        if l[0] == 'D':
            b, i, z = l[1], ZERO, 1
            have = self.ext(s, b, fr)
        elif l[0] == 'I':
            b = l[1]
            z = self.elem(s, b, fr) or 1
            have = self.ext(s, b[1] if b[0] == 'D' else ('ad', b), fr)
            i = l[2]
        else:
            return
        if have is None and e['k'] == 'idx' and flow.unref(e['b'].get('t', '')) not in BYTE and not arr(flow.unref(e['b'].get('t', ''))):
            return
        ok = None if have is None else s.entails_le0(scale(i, -1)) and s.entails_le0(sub(add(scale(i, z), I(z)), have))
        self.judge(s, 'index', 'element of ' + self.name_of(e), ok, e, fr, 'element %s of %s bytes' % (show(i), show(have) if have else 'unknown'))

    def name_of(self, e):
        for n in walk(e):
            if n.get('k') in ('var', 'mem'):
                return n.get('n') or n.get('q', '').rsplit('::', 1)[-1]
        return 'array'


GHOST = (BITS, LEFT, ROOM)
KEPT = (BC + '::buf', BC + '::sz', BR + '::buf', BW + '::buf', AB + '::buf', AB + '::buf_cap', 'fixed')


def join(x, sts):
    """states that agree on what is left of every reader become one; what they disagree on is unknown afterwards"""
    groups = {}
    for s in sts:
        k = (frozenset((l, v) for l, v in s.store.items() if l[0] == 'F' and l[2] in GHOST), frozenset(s.aux.items()))
        groups.setdefault(k, []).append(s)
    if len(groups) > 24:
        g2 = {}
        for k, ss in groups.items():
            g2.setdefault(k[1], []).extend(ss)
        groups = g2
    return [join1(x, ss) if len(ss) > 1 else bare(ss[0]) for ss in groups.values()]


def bare(s):
    if s.ev or s.choice:
        s = s.copy()
        s.ev = ()
    return s


def join1(x, ss):
    a = ss[0].copy()
    a.ev = ()
    n = next(x.cnt)
    rel = []
    for l in list(a.store):
        v = a.store[l]
        vs = [s.store.get(l) for s in ss]
        if all(w == v for w in vs):
            continue
        del a.store[l]
        if l[0] in ('born', 'base') or any(w is None or w[0] in ('ref', 'O', 'lam') for w in vs) and l[0] != 'L':
            a.ver[l[2] if l[0] == 'F' else '[]'] = n
            continue
        if any(w is None for w in vs):
            continue            # out of scope on one of them
        if l[0] == 'F' and l[2] in GHOST:
            a.ver[l[2]] = n
            continue
        nv = ('hv', 'join', next(x.cnt))
        ts = {flow.TT.get(w) for w in vs if w[0] not in ('i', 'lin')}
        t = next(iter(ts)) if len(ts) == 1 else None
        bs = [s.bounds(w) for s, w in zip(ss, vs)] if all(w[0] not in ('ref', 'O') for w in vs) else []
        TT[nv] = t or ('i64' if all(w[0] in ('i', 'lin') for w in vs) else '?')
        a.store[l] = nv
        if bs and all(b[0] is not None for b in bs):
            know(a, sub(I(min(b[0] for b in bs)), nv))
        if bs and all(b[1] is not None for b in bs):
            know(a, sub(nv, I(max(b[1] for b in bs))))
        if bs:
            rel.append((nv, vs))
    for nv, vs in rel:
        seen = set()
        for s0, v0 in zip(ss, vs):
            _, d0 = lin(v0)
            for t in s0.le[-24:]:
                _, d = lin(t)
                for m, c in d0.items():
                    if m in d and d[m] % c == 0:
                        k = d[m] // c
                        rest = sub(t, scale(v0, k))
                        if (k, rest) in seen or rest[0] == 'i':
                            continue
                        seen.add((k, rest))
                        if all(s.entails_le0(add(rest, scale(v, k))) for s, v in zip(ss, vs)):
                            know(a, add(rest, scale(nv, k)))
    for s in ss:
        for k, v in s.ver.items():
            if a.ver.get(k, 0) != v:
                a.ver[k] = n
    common = [set(s.le) for s in ss[1:]]
    a.le = tuple(t for t in ss[0].le if all(t in c or s.entails_le0(t, 0) for c, s in zip(common, ss[1:]))) + a.le[len(ss[0].le):]
    a.eq = {k: v for k, v in a.eq.items() if all(s.eq.get(k) == v for s in ss)}
    a.ne = {k: frozenset.intersection(*[s.ne.get(k, frozenset()) for s in ss]) for k in a.ne}
    fs = [set(s.facts) for s in ss[1:]]
    a.facts = tuple(f for f in a.facts if all(f in c for c in fs))
    return a


def know(s, t):
    if not (t[0] == 'i' and t[1] <= 0):
        c, d = lin(t)
        g = 0
        for v in d.values():
            g = math.gcd(g, abs(v))
        if g > 1:
            t = flow.mklin(-((-c) // g), {k: v // g for k, v in d.items()})
        s.le = s.le + (t,)


def unref(t):
    return flow.unref(t)


def pairs(g):
    ps = g['params']
    out = []
    for i in range(len(ps) - 1):
        t = ps[i]['t'][1:] if ps[i]['t'].startswith('cp:') else ps[i]['t']
        if t in BYTE and ps[i + 1]['t'] in COUNT and SIZEARG.search(ps[i + 1]['n'] or ''):
            out.append((i, i + 1))
    return tuple(out)


OPEN = (BC + '::BitContext', CB + '::CharBuffer', CB + '::create_buf', CB + '::deep_copy', 'sps::AVPacket::AVPacket', 'sps::AVPacket::create',
        BR + '::BytesReader', BW + '::BytesWriter')


def analyse(prog, f, open_=(), depth=10):
    """one function on its own: callees of open_ and the primitives' small helpers are expanded"""
    inline = lambda g, fr=None: g['u'] in open_ or g['u'] in info(prog).pointer_helpers or g['f'].startswith(OPEN) or small(g)
    x = Mem(prog, f, inline, depth)
    st = flow.State()
    args = []
    for p in f['params']:
        args.append(None)
    members(prog, x, f, st)
    for pi, ni in pairs(f):
        pv, nv = ('p', f['params'][pi]['n']), ('p', f['params'][ni]['n'])
        x.room[pv] = nv
        NONNEG.add(nv)
        x.count(nv)
        TT[nv] = f['params'][ni]['t']
        know(st, scale(nv, -1))
    res = x.run(f, state=st)
    return x, res


def assigned_outside(prog, q, ctors):
    us = {c['u'] for c in ctors}
    for g in prog.funcs.values():
        if g['u'] in us or not g.get('body'):
            continue
        for n in walk(g['body']):
            if n.get('k') == 'asg' and n['a'].get('k') == 'mem' and n['a'].get('q') == q:
                return True
            if n.get('k') == 'call' and n.get('op') == '=' and n.get('args') and n['args'][0].get('k') == 'mem' and n['args'][0].get('q') == q:
                return True
            if n.get('k') == 'call' and n.get('f', '').endswith(('::reset', '::swap')) and n.get('obj', {}).get('q') == q:
                return True
    return False


def members(prog, x, f, st):
    """the readers and buffers a constructor gives its object once and for all"""
    cls = f.get('cls') or ''
    if not cls or f.get('isctor'):
        return
    mine = [fl for c in prog.bases(cls) | {cls} for fl in (prog.records.get(c) or {}).get('fields', [])] if isinstance(prog.bases(cls), set) else \
           [fl for c in [cls] + [b for b in prog.bases(cls) if b != cls] for fl in (prog.records.get(c) or {}).get('fields', [])]
    mine = [fl for fl in mine if any(c + '>' in fl['t'] for c in (BR, BW, AB))]
    if not mine:
        return
    cts = prog.ctors(cls)
    if len(cts) != 1 or any(assigned_outside(prog, fl['q'], cts) for fl in mine):
        return
    y = Mem(prog, cts[0], lambda g, fr=None: g['f'].startswith(OPEN), 6)
    y.cnt = x.cnt
    res = y.run(cts[0])
    if len(res) != 1:
        return
    s = res[0][0]
    x.room.update(y.room)
    this = ('D', ('this',))
    keep = (BR + '::buf', BW + '::buf', AB + '::buf_cap')
    for fl in mine:
        v = s.store.get(('F', this, fl['q']))
        if v is None:
            continue
        st.store[('F', this, fl['q'])] = v
        for _ in range(2):
            for k, w in s.store.items():
                if k[0] == 'F' and k[2] in keep and (k[1] == ('D', v) or k[1] in [('D', z) for z in st.store.values()]):
                    st.store[k] = w


def const_ranges(prog):
    """range of the integer members that are only ever given constants and fixed-width fields"""
    asg, bad = {}, set()
    ctor_args = {}
    for g in prog.funcs.values():
        for x in walk(g.get('body') or {}):
            if x.get('k') == 'ctor' and x.get('u'):
                ctor_args.setdefault(x['u'], []).append(x.get('args', []))
            if x.get('k') == 'call' and x.get('f', '').startswith(('std::make_unique', 'std::make_shared')):
                inner = flow.tmplarg(x['t'])
                for c in prog.ctors(inner) if inner else []:
                    ctor_args.setdefault(c['u'], []).append(x.get('args', []))
    def val(e, g):
        while e.get('k') in ('cast', 'paren') and 'cv' not in e and e.get('e'):
            e = e['e']
        if 'cv' in e:
            return (e['cv'], e['cv'])
        if e.get('k') == 'int':
            return (e['v'], e['v'])
        if e.get('k') == 'call' and e.get('f') == BC + '::read_bits' and e['args'] and (e['args'][0].get('cv') is not None or e['args'][0].get('k') in ('int', 'cast')):
            r = val(e['args'][0], g)
            return (0, (1 << r[0]) - 1) if r else None
        if e.get('k') == 'var' and g.get('isctor'):
            for i, p in enumerate(g['params']):
                if p['id'] == e.get('id'):
                    rs = []
                    for a in ctor_args.get(g['u'], []):
                        r = val(a[i], g) if i < len(a) else (p['dv'], p['dv']) if 'dv' in p else None
                        if r is None:
                            return None
                        rs.append(r)
                    return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else None
        return None
    def note(q, r):
        if r is None:
            bad.add(q)
        else:
            o = asg.get(q, r)
            asg[q] = (min(o[0], r[0]), max(o[1], r[1]))
    for g in prog.funcs.values():
        for x in walk(g.get('body') or {}):
            if x.get('k') == 'asg' and x['a'].get('k') == 'mem' and x['a'].get('t') in flow.INT:
                note(x['a']['q'], val(x['c'] if 'c' in x else x.get('b', {}), g) if x.get('op', '=') == '=' else None)
            elif x.get('k') == 'un' and x.get('op') in ('++', '--', '&') and x['e'].get('k') == 'mem':
                bad.add(x['e']['q'])
            elif x.get('k') == 'call':
                for a, p in zip(x.get('args', []), x.get('pt', [])):
                    if p.startswith('r:') and a.get('k') == 'mem':
                        bad.add(a['q'])
    return {q: r for q, r in asg.items() if q not in bad}


def local_ranges(g):
    """range of the local integers that are only ever given constants"""
    r, bad = {}, set()
    def cv(e):
        while e.get('k') in ('cast', 'paren') and 'cv' not in e and e.get('e'):
            e = e['e']
        return e.get('cv', e.get('v') if e.get('k') == 'int' else None)
    def note(i, v):
        if v is None:
            bad.add(i)
        else:
            o = r.get(i, (v, v))
            r[i] = (min(o[0], v), max(o[1], v))
    for x in walk(g.get('body') or {}):
        if x.get('k') == 'decl':
            for d in x.get('vars', []):
                if d.get('t') in flow.INT:
                    note(d.get('id'), cv(d['init']) if d.get('init') else None)
        elif x.get('k') == 'asg' and x['a'].get('k') == 'var':
            note(x['a']['id'], cv(x['c']) if x.get('op', '=') == '=' else None)
        elif x.get('k') == 'un' and x.get('op') in ('++', '--', '&') and x['e'].get('k') == 'var':
            bad.add(x['e']['id'])
        elif x.get('k') in ('call', 'ctor'):
            for a, p in zip(x.get('args', []), x.get('pt', [])):
                if p.startswith('r:') and a.get('k') == 'var':
                    bad.add(a['id'])
        elif x.get('k') == 'lambda':
            return {}
    ps = {p['id'] for p in g['params']}
    return {i: v for i, v in r.items() if i not in bad and i not in ps}


def never_negative(prog):
    """integer members that start as a constant from 0 up and are only ever increased"""
    ok, bad = set(), set()
    for g in prog.funcs.values():
        lr = None
        for x in walk(g.get('body') or {}):
            if x.get('k') == 'asg' and x['a'].get('k') == 'mem' and x['a'].get('t') in flow.INT:
                c = x['c']
                while c.get('k') in ('cast', 'paren') and 'cv' not in c and c.get('e'):
                    c = c['e']
                v = c.get('cv', c.get('v') if c.get('k') == 'int' else None)
                if c.get('k') == 'var' and v is None:
                    lr = local_ranges(g) if lr is None else lr
                    v = lr.get(c.get('id'), (None,))[0]
                (ok if v is not None and v >= 0 and x.get('op', '=') in ('=', '+=') else bad).add(x['a']['q'])
            elif x.get('k') == 'un' and x.get('op') in ('--', '&') and x['e'].get('k') == 'mem':
                bad.add(x['e']['q'])
            elif x.get('k') == 'call':
                for a, p in zip(x.get('args', []), x.get('pt', [])):
                    if p.startswith('r:') and a.get('k') == 'mem':
                        bad.add(a['q'])
    return ok - bad


class Info:
    def __init__(self, prog):
        self.ranges, self.pairs = {}, {}
        self.ranges = const_ranges(prog)
        self.locals = {}
        self.nonneg = never_negative(prog)
        self.pairs, self.pair_writers = field_pairs(prog)
        self.pointer_helpers = {g['u'] for g in prog.funcs.values() if g.get('body') and (g.get('ret') or '') in BYTE
                                and pairs(g)}


_info = {}


def info(prog):
    k = id(prog)
    if k not in _info:
        _info.clear()
        _info[k] = Info(prog)
    return _info[k]


def field_pairs(prog):
    """pointer member -> count member that tells how many bytes are behind it: a class member function stores its (pointer, size)
    parameters in both; verified afterwards for every function that stores one of them"""
    out, writers = {}, {}
    stores = {}
    for g in prog.funcs.values():
        for x in walk(g.get('body') or {}):
            if x.get('k') == 'asg' and x.get('op', '=') == '=' and x['a'].get('k') == 'mem':
                stores.setdefault(x['a']['q'], []).append((g, x))
            elif x.get('k') == 'call' and x.get('op') == '=' and len(x.get('args', [])) == 2 and x['args'][0].get('k') == 'mem':
                c = x['args'][1]
                while c.get('k') in ('cast', 'paren') and c.get('e') or c.get('k') == 'ctor' and len(c.get('args', [])) == 1 and 'unique_ptr' in c.get('t', ''):
                    c = c['e'] if c.get('e') else c['args'][0]
                stores.setdefault(x['args'][0]['q'], []).append((g, {'c': c}))
        for x in g.get('inits') or []:
            if x.get('q'):
                stores.setdefault(x['q'], []).append((g, {'c': x.get('e') or {}}))
    def var(x):
        e = x.get('c') or {}
        while e.get('k') in ('cast', 'paren') and e.get('e'):
            e = e['e']
        return e.get('id') if e.get('k') == 'var' else None
    for q, ss in stores.items():
        if q.startswith(PRIM):
            continue
        for g, x in ss:
            v = x.get('c') or {}
            if v.get('k') == 'new' and v.get('at') in ('u8', 'i8'):
                n = v.get('n') or {}
                while n.get('k') in ('cast', 'paren') and n.get('e'):
                    n = n['e']
                for q2, s2 in stores.items():
                    if n.get('k') == 'var' and q2.rsplit('::', 1)[0] == q.rsplit('::', 1)[0] and any(h is g and var(y) == n.get('id') for h, y in s2):
                        out[q] = q2
            for pi, ni in pairs(g):
                if var(x) == g['params'][pi]['id']:
                    for q2, s2 in stores.items():
                        if q2.rsplit('::', 1)[0] == q.rsplit('::', 1)[0] and any(h is g and var(y) == g['params'][ni]['id'] for h, y in s2):
                            out[q] = q2
    for q, z in out.items():
        writers[q] = {g['u']: g for g, _ in stores[q] + stores[z]}
    return out, writers


def small(g):
    """gives a member of its object and does nothing else"""
    b = (g.get('body') or {}).get('b') or (g.get('body') or {}).get('s') or []
    return len(b) == 1 and b[0].get('k') == 'return' and (b[0].get('e') or {}).get('k') == 'mem'


def subject(prog, f):
    if not f.get('body') or f['f'].startswith(tuple(c + '::' for c in PRIM)):
        return False
    if pairs(f):
        return True
    for n in walk(f['body']):
        if n.get('k') == 'call' and n.get('f', '').startswith(tuple(c + '::' for c in PRIM)):
            return True
        if n.get('k') == 'call' and n.get('f') in CFN:
            return True
        if n.get('k') == 'ctor' and n.get('cls') in PRIM:
            return True
        if n.get('k') in ('idx',):
            return True
        if n.get('k') == 'un' and n.get('op') == '*' and n.get('e', {}).get('t') in BYTE:
            return True
    return False


# ------------------------------------------------------------------ P01
# what never comes from a peer: the configuration file and its options (P15 decides those)
LOCAL = ('sps_io_memory.cpp', 'sps_module.cpp', 'sps_module_opt.cpp')


def p01(ctx):
    prog = ctx.prog
    ctx.rules = ['primitive', 'acquire', 'extent', 'index']
    np = prims.contracts(prog, Prim(ctx))
    ctx.notes['primitives'] = np
    if np < 30:
        raise AnalysisError('only %d of the reading and writing primitives found' % np)
    subs = [f for f in sorted(prog.funcs.values(), key=lambda f: (f['file'], f['l'])) if subject(prog, f) and not f['file'].endswith(LOCAL)]
    callers = {}
    for g in prog.funcs.values():
        for n in walk([g.get('inits', []), g.get('body') or {}]):
            if n.get('k') == 'call' and n.get('u'):
                callers.setdefault(n['u'], {})[g['u']] = g
    done, work, opened = {}, list(subs), set()
    for turn in range(4):
        for f in work:
            x, res = analyse(prog, f, opened)
            ctx.see(x)
            ctx.paths += len(res)
            done[f['u']] = (f, x)
        if turn == 3:
            break
        # what a function needs and does not ask for itself is asked of its callers, where they are known
        new = {}
        for u, (f, x) in done.items():
            if u in opened or not any(v[1] for v in x.obl.values()) or not f['params'] and not f.get('cls'):
                continue
            cs = [g for g in callers.get(u, {}).values() if g['u'] != u]
            if cs:
                new[u] = cs
        if not new:
            break
        opened |= set(new)
        work = list({g['u']: g for cs in new.values() for g in cs}.values())
    und = 0
    count = {}
    for u, (f, x) in sorted(done.items(), key=lambda kv: (kv[1][0]['file'], kv[1][0]['l'])):
        if u in opened and any(u in y.visited for w, (g, y) in done.items() if w != u):
            continue
        for (rule, func, line, what, file), (ok, bad, s, msg, un) in x.obl.items():
            if bad:
                via = '' if f['f'] == func else ' (called by %s)' % f['f']
                ctx.fail(rule, what, file, line, func, '%s: %s%s' % (func, msg, via), key='%s|%s|%s' % (rule, func, what), witness=C.witness(s))
            elif ok:
                ctx.ok(rule, '%s %s:%s: %s' % (func, file.rsplit('/', 1)[-1], line, what))
                count[rule] = count.get(rule, 0) + 1
            if un and not bad:
                und += 1
    ctx.notes['functions'] = len(done)
    ctx.notes['undecided for want of a known extent'] = und
    ctx.notes['by rule'] = count
    if count.get('acquire', 0) < 60:
        raise AnalysisError('only %d uses of the readers found' % count.get('acquire', 0))
    ctx.assumptions += [
        'sizes of buffers and of what one read gives stay below 2^31',
        'a read or read_fully that succeeds reports no more than the size it was given',
        'accesses whose extent the source does not determine (%d) are not judged' % und]


class Prim:
    def __init__(self, ctx):
        self.ctx = ctx

    def ok(self, rule, file, line, what):
        self.ctx.ok(rule, what)

    def fail(self, rule, file, line, what, msg, wit):
        func = what.split(' ')[0]
        self.ctx.fail(rule, what, file, line, 'sps::' + func, msg, witness=wit)
