"""P17: an FLV tag states the sizes, the times and the kind of what it carries, and is read back that way."""
import flow
from flow import ZERO, I, eqatom, sub, add, show, TT
from program import AnalysisError, walk
from rules import common as C
from rules import layout as Y

KIND = {0: 9, 1: 8, 2: 18}          # stream type -> tag type (video, audio, script data)
RD = {'read_int8': 8, 'read_int16': 16, 'read_int24': 24, 'read_int32': 32}
WR = {'write_int8': 8, 'write_int16': 16, 'write_int24': 24, 'write_int32': 32}
BR, BW = 'sps::BytesReader::', 'sps::BytesWriter::'
PURE = ('sps::CharBuffer::size', 'sps::CharBuffer::buffer')


class Bad(Exception):
    pass


def helper(top):
    def ok(g, fr):
        return bool(g.get('body')) and g['file'] == top['file'] and not g.get('virt') and g['u'] != top['u']
    return ok


class P(Y.Path):
    """one path, without the bit reader"""
    def __init__(self, x, s, W):
        self.x, self.s, self.W = x, s, W
        self.read, self.stored, self.names, self.clauses = {}, {}, {}, None
        self.same = {}
        first = {}
        for e in s.ev:
            if e[0] == 'call' and e[1] in PURE:
                k = (e[1], e[3])
                if k in first:
                    self.same[e[5]] = first[k]
                else:
                    first[k] = e[5]
                    self.read[e[5]] = 32

    def norm(self, t):
        return flow.subst(t, lambda q: self.same.get(q, q)) if isinstance(t, tuple) and t else t

    def is_number(self, got, t, n, low=0):
        """do these bits (lowest first) show the number t from bit low on?"""
        t = self.norm(t)
        if t[0] == 'i':
            return got == [(t[1] >> (low + i)) & 1 for i in range(n)]
        return got == [('b', t, low + i) for i in range(n)]

    def nibble(self, flags):
        """can the upper half of the flags be 5 (a command frame)? the set of answers the path leaves open"""
        tags = [('b', flags, i) for i in range(4, 8)]
        return self.ask(tags, lambda v: v == [1, 0, 1, 0])


def fld(e, name):
    return e[0] == 'ld' and e[1][0] == 'F' and e[1][2].split('::')[-1] == name


def find(s, name):
    """the value of a field of the packet, as the path first read it"""
    seen = set()
    for src in [a for a, _ in s.facts] + [e[4] for e in s.ev if e[0] == 'call'] + [e[2] for e in s.ev if e[0] == 'st']:
        for q in flow.subterms(src):
            if q and q[0] == 'ld' and fld(q, name):
                seen.add(q)
    return seen


def write_side(x, s, v, W):
    """None, or what is wrong with the tag this path writes"""
    p = P(x, s, W)
    data = []           # bytes: 8 bits each, lowest first; or None while reserved
    anchors = {}
    sends = []
    got = []
    for n in ('dts', 'pts', 'flags', 'pkt_type', 'previous_size'):
        for q in find(s, n):
            p.read[q] = 64
    # sums are numbers of their own
    sizes = [t for t, w in p.read.items() if t[0] == 'r' and t[1] == 'sps::CharBuffer::size']
    for e in s.ev:
        for src in ([e[2]] if e[0] == 'st' else e[4] if e[0] == 'call' else []):
            src = p.norm(src)
            for q in flow.subterms(src):
                if q and q[0] == 'lin':
                    p.read.setdefault(q, 64)
    last_end = None
    pos_of = {}
    for e in s.ev:
        if e[0] == 'call':
            m = e[1].split('::')[-1]
            if e[1].startswith(BW) and m in WR:
                if sends:
                    raise Bad((e[6], 'the head is written on after it was sent'))
                b = p.bits(p.norm(e[4][0]))
                n = WR[m] // 8
                for i in range(n):
                    lo = 8 * (n - 1 - i)
                    data.append((b[lo:lo + 8], e[6]))
            elif e[1] == BW + 'skip':
                c = s.const_of(e[4][0])
                if c is None or c[0] != 'i':
                    raise Bad((e[6], 'room is left in an amount that no constant gives'))
                data.extend([(None, e[6])] * c[1])
            elif e[1] == 'sps::AVBuffer::end':
                anchors[e[5]] = len(data)
            elif m == 'write' and 'Writer' in e[1]:
                sends.append(e)
        elif e[0] == 'st':
            a, i = None, 0
            if e[1][0] == 'I' and e[1][1][0] == 'D' and e[1][2][0] == 'i':
                a, i = e[1][1][1], e[1][2][1]
            elif e[1][0] == 'D':
                a = e[1][1]
            if a in anchors:
                k = anchors[a] + i
                if k >= len(data):
                    raise Bad((e[3], 'the size is stored behind the head'))
                if sends:
                    raise Bad((e[3], 'the size is stored after the head was sent'))
                data[k] = (p.bits(p.norm(e[2]))[:8], e[3])
    ok = v == ZERO or s.truth(eqatom(v, ZERO)) is True
    prev = [q for q in find(s, 'previous_size') if q[2] == 0]
    now = next((t for k, t in s.store.items() if k[0] == 'F' and k[2].endswith('::previous_size')), None)
    if not ok:
        return False
    if not sends:
        if now is not None and not fld(now, 'previous_size'):
            raise Bad((None, 'the size of the previous tag changes although no tag was sent'))
        return False
    l0 = sends[0][6]
    if len(sends) != 2:
        raise Bad((l0, 'a tag is its head and its data, sent once each'))
    if not (sends[0][4][0][0] == 'r' and sends[0][4][0][1] == 'sps::AVBuffer::buffer' and sends[0][4][1][0] == 'r' and sends[0][4][1][1] == 'sps::AVBuffer::size'):
        raise Bad((l0, 'what is sent first is not the whole head'))
    a = [p.norm(q) for q in sends[1][4][:2]]
    if not (a[0][0] == 'r' and a[0][1] == 'sps::CharBuffer::buffer' and a[1][0] == 'r' and a[1][1] == 'sps::CharBuffer::size'):
        raise Bad((sends[1][6], 'what is sent second is not the whole data of the packet'))
    size = a[1]
    if len(data) < 15:
        raise Bad((l0, 'the head of a tag has 15 bytes, %d are written' % len(data)))
    total = add(size, I(len(data) - 15))
    p.read.setdefault(total, 64)

    def number(at, n, t, what, low=0):
        bits = []
        for b, l in reversed(data[at:at + n]):
            if b is None:
                raise Bad((l, 'nothing is stored where %s belongs' % what))
            bits += b
        if not p.is_number(bits, t, 8 * n, low):
            raise Bad((data[at][1], '%s is not what is written in its place' % what))
    if not prev:
        raise Bad((l0, 'the size of the previous tag is not written'))
    number(0, 4, prev[0], 'the size of the previous tag')
    st = [t for t in s.eq if fld(t, 'stream_type')]
    if not st:
        raise Bad((l0, 'the kind of the tag does not depend on the kind of the packet'))
    kind = s.eq[st[0]][1]
    if kind not in KIND:
        raise Bad((l0, 'a packet of a kind without tags is sent'))
    number(4, 1, I(KIND[kind]), 'the type of the tag')
    number(5, 3, total, 'the number of bytes that follow the head')
    dts = [q for q in find(s, 'dts')]
    if len(dts) != 1:
        raise Bad((l0, 'the time of the packet is not written'))
    number(8, 3, dts[0], 'the low 24 bits of the time')
    number(11, 1, dts[0], 'the high 8 bits of the time', 24)
    number(12, 3, ZERO, 'the stream id 0')
    rest = 0
    if kind in (0, 1):
        fl = [q for q in find(s, 'flags')]
        if len(data) < 16 or len(fl) != 1:
            raise Bad((l0, 'the flags of the packet are not written'))
        number(15, 1, fl[0], 'the flags')
        rest = 1
        short = {False} if kind == 1 else p.nibble(fl[0])
        if not short:
            return False
        if len(short) > 1:
            raise Bad((l0, 'the head does not depend on whether it is a command frame'))
        if short == {False}:
            pt = list(find(s, 'pkt_type'))
            pt = [q for q in pt if not any(r != q and r[1][1] == q[1] for r in pt)] or pt
            if len(data) < 17 or not pt:
                raise Bad((l0, 'the packet type is not written'))
            number(16, 1, pt[0], 'the packet type')
            rest = 2
            if kind == 0:
                pts = list(find(s, 'pts'))
                if len(data) < 20 or len(pts) != 1:
                    raise Bad((l0, 'the distance of the two times is not written'))
                d = sub(pts[0], dts[0])
                p.read.setdefault(d, 64)
                number(17, 3, d, 'presentation time minus decoding time')
                rest = 5
    if len(data) != 15 + rest:
        raise Bad((data[-1][1], '%d bytes are written behind the head, the kind of tag has %d' % (len(data) - 15, rest)))
    if now is None or p.norm(now) != add(total, I(11)):
        raise Bad((sends[1][6], 'the size kept for the next tag is not 11 and what followed the head'))
    return True


def corner(t, leaf, val):
    """the value of an expression over one number, in its own types"""
    if t == leaf:
        return val
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 'lin':
        r = t[1]
        for q, c in t[2]:
            w = corner(q, leaf, val)
            if w is None:
                return None
            r += c * w
        return r
    if k == 'tr':
        w = corner(t[2], leaf, val)
        return None if w is None else wrap(w, t[1])
    if k == 'op':
        a, b = corner(t[2], leaf, val), corner(t[3], leaf, val)
        if a is None or b is None:
            return None
        ty = TT.get(t, 'i64')
        a, b = a & (2 ** 64 - 1), b & (2 ** 64 - 1) if t[1] in '&|^' else b
        if t[1] in ('<<', '>>') and not 0 <= b < 64:
            return None
        if t[1] == '>>' and ty[0] == 'i':
            a = wrap(a, ty)
        r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b, '*': lambda: a * b}.get(t[1])
        return None if r is None else wrap(r(), ty)
    return None


def allowed(s, leaf, val):
    """does the path admit this number?"""
    for a, yes in s.facts:
        if a[0] == 'eq' and flow.contains(a[1], leaf):
            x, y = corner(a[1], leaf, val), corner(a[2], leaf, val)
            if x is not None and y is not None and (x == y) != yes:
                return False
        elif a[0] == 'le0' and flow.contains(a[1], leaf):
            x = corner(a[1], leaf, val)
            if x is not None and (x <= 0) != yes:
                return False
    return True


def wrap(n, ty):
    if ty == 'b':
        return int(bool(n))
    w = int(ty[1:]) if ty in flow.INT else 64
    n &= (1 << w) - 1
    if ty[0] == 'i' and n >> (w - 1):
        n -= 1 << w
    return n


def read_side(x, s, v, W):
    p = P(x, s, W)
    ok = v == ZERO or s.truth(eqatom(v, ZERO)) is True
    if not ok:
        return False
    reads, made, skips, poss = [], None, [], {}
    for e in s.ev:
        if e[0] != 'call':
            continue
        m = e[1].split('::')[-1]
        if e[1].startswith(BR) and m in RD:
            if made:
                raise Bad((e[6], 'more is read after the packet was made'))
            reads.append((RD[m], e[5], e[6]))
            p.read[e[5]] = RD[m]
        elif e[1].startswith(BR) and m == 'skip_bytes':
            skips.append((e[4][0], e[6], made is not None))
        elif e[1] == 'sps::AVBuffer::pos':
            poss[e[5]] = (len(reads), len(skips))
        elif e[1] == 'sps::AVPacket::create':
            made = e
    if not made:
        raise Bad((None, 'success is answered without a packet'))
    l0 = made[6]
    flat = []
    for w, t, l in reads:
        for i in range(w - 1, -1, -1):
            flat.append(('b', t, i))
    if len(flat) < 120:
        raise Bad((l0, 'the head of a tag has 15 bytes, %d are read' % (len(flat) // 8)))

    def number(at, n):
        return list(reversed(flat[8 * at:8 * (at + n)]))
    z = lambda b: b + [0] * (64 - len(b))

    def term(at, n):
        b = number(at, n)
        ts = {q[1] for q in b}
        if len(ts) == 1 and p.read[next(iter(ts))] == 8 * n:
            return next(iter(ts))
        raise Bad((l0, 'bytes %d to %d of the head are not read as one number' % (at, at + n - 1)))
    A = made[4]
    if len(A) < 9:
        raise AnalysisError('AVPacket::create has other parameters')
    tag, size = term(4, 1), term(5, 3)
    tc = s.const_of(tag)
    kind = s.const_of(A[1])
    if kind is None or tc is None:
        raise Bad((l0, 'the kind of the packet does not depend on the type of the tag'))
    if KIND.get(kind[1]) != tc[1]:
        raise Bad((l0, 'a tag of type %s becomes a packet of kind %s' % (tc[1], kind[1])))
    rest = 0
    dts = z(number(8, 3) + number(11, 1))
    if p.bits(A[5]) != dts:
        raise Bad((l0, 'the decoding time is not the 32 bits of the head'))
    if kind[1] in (0, 1):
        if len(flat) < 128:
            raise Bad((l0, 'the flags are not read'))
        fl = term(15, 1)
        if p.bits(A[7])[:8] != number(15, 1):
            raise Bad((l0, 'the flags of the packet are not those of the tag'))
        short = {False} if kind[1] == 1 else p.nibble(fl)
        if not short:
            return False
        if len(short) > 1:
            raise Bad((l0, 'what is read does not depend on whether it is a command frame'))
        rest = 1
        if short == {False}:
            rest = 2 if kind[1] == 1 else 5
    if len(flat) != 8 * (15 + rest):
        raise Bad((reads[-1][2], '%d bytes are read behind the head, the kind of tag has %d' % (len(flat) // 8 - 15, rest)))
    if rest == 5:
        cts = term(17, 3)
        d = sub(A[6], A[5])
        for c, want in ((0, 0), (1, 1), (0x7fffff, 0x7fffff), (0x800000, -0x800000), (0xffffff, -1), (0x123456, 0x123456), (0xabcdef, 0xabcdef - 0x1000000)):
            if not allowed(s, cts, c):
                continue
            got = corner(d, cts, c)
            if got is None or (got - want) & 0xffffffff:      # a 32 bit number takes either sign here
                raise Bad((l0, 'presentation time minus decoding time is not the signed 24 bit number of the tag'))
    elif kind[1] == 1 and sub(A[6], A[5]) != ZERO:
        raise Bad((l0, 'the two times of sound differ'))
    left = sub(size, I(rest))
    if sub(A[4], left) != ZERO:
        raise Bad((l0, 'the packet does not take the %s bytes that are left of the tag' % ('size - %d' % rest if rest else 'size')))
    if A[3] not in poss or poss[A[3]] != (len(reads), 0):
        raise Bad((l0, 'the data of the packet does not begin behind what was read'))
    if len(skips) != 1 or not skips[0][2] or sub(skips[0][0], left) != ZERO:
        raise Bad((skips[0][1] if skips else l0, 'not exactly the data of the packet is passed over'))
    return True


def p17(ctx):
    prog = ctx.prog
    ctx.rule('write', 'on every path that sends an FLV tag, each byte of its head is computed from the packet as the format says, the stated size is the '
             'number of bytes that follow, and the size kept for the next tag is the size of this one')
    ctx.rule('read', 'on every path that makes a packet of an FLV tag, kind, times, flags and data are the bits of the tag, and exactly the stated size is consumed')
    ctx.assume('BytesWriter and BytesReader write and read big-endian numbers (P01 decides what they consume); a packet keeps its size while it is sent')
    W = Y.Widths(prog)
    for name, rule, side in (('sps::FlvAVMuxer::write_packet', 'write', write_side), ('sps::FlvDemuxer::read_packet', 'read', read_side)):
        fs = [f for f in prog.fns(name) if f.get('body')]
        if not fs:
            raise AnalysisError('%s is gone' % name)
        for f in fs:
            x = flow.Exec(prog, max_depth=3, inline=helper(f))
            n, fails, shown = 0, {}, []
            for s, v in x.run(f):
                ctx.paths += 1
                try:
                    if side(x, s, v, W):
                        n += 1
                        shown.append([show(a)[:60] for a, y in s.facts if y][:3])
                except Bad as b:
                    fails.setdefault(b.args[0], s)
            ctx.see(x)
            for (l, what), s in sorted(fails.items(), key=lambda q: (q[0][0] or 0, q[0][1])):
                ctx.fail(rule, '%s: %s' % (name, what), f['file'], l or f['l'], f['f'], what, key='%s|%s' % (name, what), witness=C.witness(s))
            if not fails:
                if n < 3:
                    raise AnalysisError('%d paths of %s carry a tag' % (n, name))
                for i, t in enumerate(shown):
                    ctx.ok(rule, '%s: path %d (%s)' % (name, i, ', '.join(t)))
