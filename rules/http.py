"""P10: what is read of an http message; P11: what is written of one"""
import itertools
import flow
from flow import ZERO, NULL, I, show, subterms, sub, add
from program import AnalysisError, walk
from rules import common as C
from rules.cache import enumv

PARSER = 'sps::HttpParser'
BODIES = ('sps::HttpRequestSocket', 'sps::HttpUrlProtocol')
READS = ('read', 'read_fully')
CR, LF = 13, 10
TAIL = (CR, LF, CR, LF)


def same_file(root, *extra):
    """expand the functions of the file (and small accessors of the class) of the analysed function"""
    def f(g, fr=None):
        return g['file'] == root['file'] or g['f'] in extra
    return f


def run(ctx, f, args=None, inline=None, model=None, state=None, depth=8):
    x = flow.Exec(ctx.prog, inline=inline or same_file(f), max_depth=depth, model=model)
    x.callmods = lambda e: frozenset()
    x.unaliased = True
    res = x.run(f, args=args, state=state)
    ctx.see(x)
    ctx.paths += len(res)
    return x, res


def fld(cls, prog, name):
    for c in prog.bases(cls):
        for fl in (prog.records.get(c) or {}).get('fields', []):
            if fl['q'].rsplit('::', 1)[-1] == name:
                return fl['q']
    raise AnalysisError('%s has no member %s' % (cls, name))


def mine(q):
    return ('F', ('D', ('this',)), q)


def final(s, loc):
    return s.store.get(loc, ('ld', loc, 0))


def named(s, name, q=None):
    """the terms of the path that load a member of that name"""
    out = set()
    def look(t):
        for y in subterms(t):
            if y[0] == 'ld' and y[1][0] == 'F' and y[1][2].rsplit('::', 1)[-1] == name:
                out.add(y)
    for a, b in s.facts:
        for t in a[1:]:
            if isinstance(t, tuple):
                look(t)
    for e in s.ev:
        if e[0] == 'call':
            for v in C.vargs(e):
                if isinstance(v, tuple):
                    look(v)
        elif e[0] == 'st':
            look(e[2])
    return sorted(out, key=repr)


def zero(s, t):
    return s.truth(flow.eqatom(t, ZERO)) if t != ZERO else True


def le(s, a, b):
    """a <= b known on the path"""
    return s.entails_le0(sub(a, b)) or sub(a, b) == ZERO


def buffer_root(v):
    """(root, offset) of a buffer argument: parameter, local array or member that holds the buffer"""
    off = ZERO
    for _ in range(8):
        if v[0] == 'ad':
            l = v[1]
            while l[0] == 'I':
                off = add(off, l[2])
                l = l[1]
            if l[0] != 'D':
                return l, off
            v = l[1]
        elif v[0] == 'lin':
            c, d = flow.lin(v)
            ptr = [t for t, k in d.items() if k == 1 and (t[0] in ('ad', 'p', 'ld', 'call', 'r') and not flow.isint(flow.TT.get(t, '')))]
            if len(ptr) != 1:
                return v, off
            off = add(off, sub(v, ptr[0]))
            v = ptr[0]
        elif v[0] in ('tr', 'cv'):
            v = v[-1]
        elif v[0] == 'ld':
            return v[1], off
        else:
            return v, off
    return v, off


class IO:
    """one read of the connection below"""
    def __init__(self, i, e, s):
        self.i, self.e = i, e
        a = C.vargs(e)
        self.full = e[1].endswith('::read_fully')
        self.root, self.off = buffer_root(a[0])
        self.size = a[1]
        self.res = e[5]
        out = [o[2] for o in e[9] if o[0] == 2]
        self.n = self.size if self.full else (out[0] if out else None)
        self.line = C.line_of(e)
        self.ok = zero(s, self.res)


def ios(s):
    out = []
    for i, e in enumerate(s.ev):
        if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in READS and len(e[4]) == 3:
            out.append(IO(i, e, s))
    return out


def char_at(s, root, off):
    """known value and known non-values of a character of a local buffer at the end of the path"""
    val, ne = None, set()
    for a, b in s.facts:
        if a[0] != 'eq' or a[2][0] != 'i':
            continue
        x = a[1]
        while x[0] in ('tr', 'cv'):
            x = x[-1]
        if x[0] == 'ld' and x[1][0] in ('I', 'D', 'X'):
            l = x[1]
            o = ZERO
            while l[0] == 'I':
                o = add(o, l[2])
                l = l[1]
            r = l
            if l[0] == 'D':
                r, o2 = buffer_root(l[1])
                o = add(o, o2)
            if r == root and sub(o, off) == ZERO:
                if b:
                    val = a[2][1]
                else:
                    ne.add(a[2][1])
    return val, ne


# ====================================================================== P10
def p10(ctx):
    header_loop(ctx)
    header_parse(ctx)
    header_names(ctx)
    header_values(ctx)
    for cls in BODIES:
        body(ctx, cls)


# ---------------------------------------------------------------------- the header
def header_loop(ctx):
    prog = ctx.prog
    R = 'header-end'
    ctx.rule(R, 'the header is read up to its empty line and not one byte further: what is read next is never more than the distance to the '
             'nearest possible CR LF CR LF, reading stops exactly there, and no read leaves the header buffer')
    f = next((g for g in prog.fns(PARSER + '::parse_header') if len(g['params']) == 2), None)
    if f is None:
        raise AnalysisError('no parse_header(io, type)')
    x, res = run(ctx, f, inline=lambda g, fr=None: g['file'] == f['file'] and g['f'] != f['f'])
    what = 'HttpParser::parse_header(io)'
    maxq, readq = mine(fld(PARSER, prog, 'max_header')), mine(fld(PARSER, prog, 'buf_read'))
    # the loop that reads
    loops = {}
    for n, fn, s, again in x.iter_ends:
        loops.setdefault(id(n), (n, fn, []))[2].append((s, again))
    loops = [v for v in loops.values() if any(io for s, a in v[2] for io in ios(s))]
    if len(loops) != 1:
        raise AnalysisError('parse_header: %d loops read the header' % len(loops))
    node, fn, ends = loops[0]
    # which local carries the size of the next read
    sizes = set()
    for s, again in ends:
        for io in ios(s):
            sizes.add(io.size)
    bad = False
    nxt = None
    for s, again in ends:
        rd = ios(s)
        if not rd:
            continue
        if len(rd) != 1:
            ctx.fail(R, what + ': one read per round', *rd[1].line, 'a round reads twice', key='header|two', witness=C.witness(s))
            return
        io = rd[0]
        size = io.size
        if size[0] == 'hv':
            nxt = (size[1], s)
        elif size[0] == 'i':
            nxt = (None, size[1])
        else:
            ctx.fail(R, what + ': size of a read', *io.line, 'the size read next, %s, is not the number of bytes a header is at least still to have'
                     % show(size), key='header|size', witness=C.witness(s))
            return
    if nxt is None:
        raise AnalysisError('parse_header: no read')
    first, step = (None, nxt[1]) if nxt[0] is None else (first_value(fn, nxt[0]), None)
    if step is None and first is None:
        raise AnalysisError('parse_header: the size of the first read is not a constant')
    start = step if step is not None else first
    ctx.judge(1 <= start <= 4, R, what + ': first read of %s bytes' % start, f['file'], f['l'], f['f'],
              'the first read asks for %s bytes: an empty line ends after 4' % start, key='header|first')
    lookback = start
    seen = set()
    for s, again in ends:
        rd = ios(s)
        if not rd:
            continue
        io = rd[0]
        size = io.size
        sizev = step
        # inside the buffer
        old = ('ld', readq, io_ver(s, readq))
        left = [t for t in named(s, 'max_header')]
        room = bool(left) and any(le(s, size, sub(left[0], o)) for o in named(s, 'buf_read') + [io.off])
        ctx.judge(room, R, what + ': the read fits the buffer', *io.line, 'the read may leave the header buffer', key='header|room',
                  witness=C.witness(s))
        if io.ok is not True:
            ctx.judge(not again, R, what + ': a failed read', *io.line, 'goes on after a failed read', key='header|fail', witness=C.witness(s))
            continue
        end = final(s, readq)
        ctx.judge(sub(end, add(io.off, size)) == ZERO, R, what + ': bytes read so far', *io.line,
                  'after the read the count is %s, not what was read (%s)' % (show(end), show(add(io.off, size))), key='header|count',
                  witness=C.witness(s))
        after = s.store.get(('L', frame_of(s, fn), nxt[0])) if nxt[0] is not None else I(step)
        for tail in itertools.product((CR, LF, 0), repeat=4):
            if not possible(s, io.root, end, tail):
                continue
            seen.add(tail)
            d = distance(tail)
            name = what + ': last bytes %s' % ' '.join({CR: 'CR', LF: 'LF', 0: 'x'}[c] for c in tail)
            if not again:
                ctx.judge(d == 0, R, name, *io.line, 'the header is taken as complete although its last four bytes are %s'
                          % ' '.join({CR: 'CR', LF: 'LF', 0: 'x'}[c] for c in tail), key='header|early', witness=C.witness(s))
            else:
                c = after[1] if after is not None and after[0] == 'i' else None
                ctx.judge(d > 0 and c is not None and 1 <= c <= d, R, name, *io.line,
                          'reads %s more bytes although the header %s' % (c if c is not None else show(after) if after else '?',
                                                                          'is complete' if d == 0 else 'may end after %d' % d),
                          key='header|next', witness=C.witness(s))
    for s, v in res:
        rd = ios(s)
        if not rd or not any(e[0] == 'call' and e[1] == PARSER + '::parse_header' for e in s.ev):
            continue
        end = final(s, readq)
        for tail in itertools.product((CR, LF, 0), repeat=4):
            if possible(s, rd[-1].root, end, tail):
                seen.add(tail)
                t = ' '.join({CR: 'CR', LF: 'LF', 0: 'x'}[c] for c in tail)
                ctx.judge(tail == TAIL, R, what + ': parsed after %s' % t, *rd[-1].line,
                          'the header is taken as complete although its last four bytes are %s' % t, key='header|early', witness=C.witness(s, v))
    ctx.judge(len(seen) == 81, R, what + ': every ending is decided', f['file'], f['l'], f['f'],
              '%d of 81 combinations of the last four bytes are handled' % len(seen), key='header|all')
    # a failure is answered with a negative number
    R2 = 'header-error'
    ctx.rule(R2, 'parse_header answers a positive length only for a header that was read and parsed completely; a failed read, a full buffer and a '
             'malformed header are answered with a negative number')
    for s, v in res:
        rd = ios(s)
        parsed = [e for e in s.ev if e[0] == 'call' and e[1] == PARSER + '::parse_header']
        name = what + ': answer %s' % show(v)[:40]
        if v[0] == 'r' and any(e[5] == v for e in parsed):
            a = C.vargs(next(e for e in parsed if e[5] == v))
            end = final(s, readq)
            ctx.judge(len(a) >= 2 and sub(a[1], end) == ZERO, R2, name + ' of the parser', f['file'], f['l'], f['f'],
                      'the parser is given %s bytes, %s were read' % (show(a[1]), show(end)), key='header|given', witness=C.witness(s, v))
            continue
        neg = s.entails_le0(add(v, I(1)))
        ctx.judge(neg, R2, name, f['file'], f['l'], f['f'], 'a header that was not read completely is answered with %s' % show(v),
                  key='header|answer', witness=C.witness(s, v))


def io_ver(s, loc):
    return s.ver.get(loc[2], 0)


def frame_of(s, fn):
    return 0


def first_value(fn, vid):
    for x in walk(fn['body']):
        if x.get('k') == 'decl':
            for v in x['vars']:
                if v['id'] == vid and v.get('e') and v['e'].get('k') == 'int':
                    return v['e']['v']
                if v['id'] == vid and v.get('init') and v['init'].get('k') == 'int':
                    return v['init']['v']
    return None


def distance(tail):
    for d in range(5):
        if tuple(tail[d:]) == TAIL[:4 - d]:
            return d
    return 4


def possible(s, root, end, tail):
    for i, c in enumerate(tail):
        val, ne = char_at(s, root, sub(end, I(4 - i)))
        if c == 0:
            if val in (CR, LF):
                return False
        else:
            if (val is not None and val != c) or c in ne:
                return False
    return True


def header_parse(ctx):
    prog = ctx.prog
    R2 = 'header-error'
    f = next((g for g in prog.fns(PARSER + '::parse_header') if len(g['params']) == 3), None)
    if f is None:
        raise AnalysisError('no parse_header(text, length, type)')
    x, res = run(ctx, f, inline=lambda g, fr=None: g['file'] == f['file'] and 'HttpParserContext' not in g['f'])
    what = 'HttpParser::parse_header(text)'
    n = ('p', f['params'][1]['n'])
    typ = ('p', f['params'][2]['n'])
    both = enumv(prog, 'BOTH')
    for s, v in res:
        if s.entails_le0(add(v, I(1))):
            continue
        name = what + ': an answer that may be positive'
        ex = [e for e in s.ev if e[0] == 'call' and e[1] == 'http_parser_execute']
        ok = len(ex) == 1
        ctx.judge(ok, R2, name + ' has parsed', f['file'], f['l'], f['f'], 'answers %s without having parsed the text once' % show(v), key='parse|none',
                  witness=C.witness(s, v))
        if not ok:
            continue
        r = ex[0][5]
        a = C.vargs(ex[0])
        ctx.judge(a[3] == n and a[2] == ('p', f['params'][0]['n']), R2, what + ': what is parsed', *C.line_of(ex[0]),
                  'parses %s bytes' % show(a[3]), key='parse|what')
        whole = s.truth(flow.eqatom(r, n)) is True or le(s, n, r)
        ctx.judge(whole, R2, name + ' parsed everything', f['file'], f['l'], f['f'], 'answers %s although the parser may have stopped before the end'
                  % show(v), key='parse|whole', witness=C.witness(s, v))
        cv = [e for e in s.ev if e[0] == 'call' and e[1].startswith('sps::HttpParserContext::parse_re')]
        none = all(s.truth(flow.eqatom(typ, I(k))) is False for k in range(both + 1))
        kind = none or bool(cv) and (zero(s, cv[-1][5]) is True or s.truth(flow.eqatom(typ, I(both))) is True)
        ctx.judge(kind, R2, name + ' has its request or response', f['file'], f['l'], f['f'],
                  'answers %s although the request or response could not be made of the header' % show(v), key='parse|kind', witness=C.witness(s, v))


# ---------------------------------------------------------------------- the body
def body(ctx, cls):
    prog = ctx.prog
    short = cls.rsplit('::', 1)[-1]
    RE = 'body-end'
    RL = 'body-length'
    RC = 'body-chunk'
    ctx.rule(RE, 'after the end of the body read answers an error and reads nothing; the end is reported only when it was reached: the length is used '
             'up, or the chunk of size 0 and its CR LF were read')
    ctx.rule(RL, 'a body with a length: no read asks for more than what is left of it, and every byte read is counted and reported')
    ctx.rule(RC, 'a chunked body: a chunk length is read exactly when the chunk before is used up, it is a hexadecimal number and its line ends in CR LF, '
             'no read asks for more than what is left of the chunk, every byte is counted and reported, and its CR LF is read and checked exactly when '
             'the chunk is used up')
    ctx.assume('the connection below does not change the members of the body reader, and reports at most as many bytes as were asked for')
    f = prog.fn(cls + '::read')
    EOF = mine(fld(cls, prog, 'is_eof'))
    NR = mine(fld(cls, prog, 'nread'))
    LEFT = mine(fld(cls, prog, 'nb_chunked_left'))
    SIZE = mine(fld(cls, prog, 'nb_chunked_size'))
    eof0, n0, l0, s0 = (('ld', q, 0) for q in (EOF, NR, LEFT, SIZE))
    for t in (n0, l0, s0):
        flow.TT.setdefault(t, 'u64')
    st = flow.State().assume(('le0', sub(l0, s0)), True)
    x, res = run(ctx, f, state=st, inline=lambda g, fr=None: g['file'] == f['file'] or g.get('cls') == cls)
    pbuf, psize, pnr = [('p', p['n']) for p in f['params']]
    out = ('X', pnr)
    known = 0
    for s, v in res:
        io = ios(s)
        ee = zero(s, eof0)
        w = lambda: C.witness(s, v)
        here = (f['file'], f['l'], f['f'])
        fails = zero(s, v) is False
        if ee is not True:
            if ee is False:
                ctx.judge(not io and fails, RE, short + '::read after the end', *here, 'after the end of the body it %s'
                          % ('reads on' if io else 'answers success'), key='after|%s' % short, witness=w())
                continue
            ctx.judge(not io, RE, short + '::read asks whether the body is at its end', *(io[0].line if io else here),
                      'reads without knowing whether the body is at its end', key='ask|%s' % short, witness=w())
            continue
        ch = named(s, 'chunked')
        chunked = None if not ch else zero(s, ch[0])
        data = [q for q in io if q.root == pbuf]
        own = [q for q in io if q.root != pbuf]
        if chunked is None:
            ctx.judge(not io, RE, short + '::read knows the framing', *(io[0].line if io else here), 'reads without looking at the framing',
                      key='framing|%s' % short, witness=w())
            continue
        known += 1
        if not fails and zero(s, v) is None:
            s1 = s.assume(flow.eqatom(v, ZERO), True)
            s = s1 if s1 is not None else s
        for q in io:
            q.ok = zero(s, q.res)
        e1 = final(s, EOF)
        became = e1 != eof0 and zero(s, e1) is not True
        if len(data) > 1:
            ctx.fail(RL if chunked else RC, short + '::read: one read of data', *data[1].line, 'reads data twice in one call', key='twice|%s' % short,
                     witness=w())
            continue
        d = data[0] if data else None
        if d is not None:
            ctx.judge(d.off == ZERO, RL if chunked else RC, short + '::read: where the data goes', *d.line,
                      'data is stored at offset %s of the buffer' % show(d.off), key='off|%s' % short, witness=w())
            ctx.judge(le(s, d.size, psize), RL if chunked else RC, short + '::read: the size of the buffer', *d.line,
                      'asks for %s bytes, the buffer has %s' % (show(d.size), show(psize)), key='cap|%s' % short, witness=w())
        if chunked:            # framing says: not chunked
            ctx.judge(not own, RL, short + '::read: bytes that are no data', *(own[0].line if own else here),
                      'reads bytes that are not passed on although the body is not chunked', key='own|%s' % short, witness=w())
            cl = named(s, 'content_length')
            cl = cl[0] if cl else None
            limited = None
            if cl is not None:
                limited = True if le(s, ZERO, cl) else False if le(s, cl, I(-1)) else None
            if d is not None:
                if limited is None:
                    ctx.fail(RL, short + '::read: the length of the body', *d.line, 'reads without looking at the length of the body',
                             key='cl|%s' % short, witness=w())
                    continue
                if limited:
                    ctx.judge(le(s, d.size, sub(cl, n0)), RL, short + '::read: what is left of the body', *d.line,
                              'asks for %s bytes, %s are left of the body' % (show(d.size), show(sub(cl, n0))), key='left|%s' % short, witness=w())
                if d.ok is True:
                    ctx.judge(sub(final(s, NR), add(n0, d.n)) == ZERO or not limited, RL, short + '::read: bytes counted', *d.line,
                              'counts %s after a read of %s' % (show(sub(final(s, NR), n0)), show(d.n)), key='count|%s' % short, witness=w())
                    ctx.judge(final(s, out) == d.n, RL, short + '::read: bytes reported', *d.line,
                              'reports %s bytes, %s were read' % (show(final(s, out)), show(d.n)), key='report|%s' % short, witness=w())
            if not fails:
                ctx.judge(d is not None and d.ok is not False, RL, short + '::read: success means data', *here,
                          'answers success without having read', key='nodata|%s' % short, witness=w())
            if became:
                have = add(n0, d.n) if d is not None and d.ok is True else n0
                if e1 == I(1) or e1[0] == 'i':
                    reached = bool(limited) and le(s, cl, have)
                else:
                    reached = bool(limited) and is_ge(e1, have, cl)
                ctx.judge(reached, RE, short + '::read: the end of a body with a length', *here,
                          'the body is taken as ended although its length is not known to be used up', key='end|%s' % short, witness=w())
            continue
        # chunked
        z = zero(s, l0)
        lines = [q for q in own if q.size == I(1)]
        tails = [q for q in own if q.size != I(1)]
        conv = [e for e in s.ev if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('strtoul', 'strtol', 'strtoull', 'strtoll')]
        if z is None:
            ctx.judge(not io, RC, short + '::read: is a chunk open', *(io[0].line if io else here), 'reads without knowing what is left of the chunk',
                      key='open|%s' % short, witness=w())
            continue
        if z is False:
            ctx.judge(not lines and not conv, RC, short + '::read: inside of a chunk', *(lines[0].line if lines else here),
                      'a chunk length is read although %s bytes of the chunk are left' % 'some', key='inside|%s' % short, witness=w())
            left, total = l0, s0
        else:
            if d is not None or not fails:
                ctx.judge(bool(conv) and bool(lines), RC, short + '::read: the length of the next chunk', *(d.line if d else here),
                          'no chunk length is read although the chunk before is used up', key='next|%s' % short, witness=w())
            if conv:
                e = conv[-1]
                a = C.vargs(e)
                root, off = buffer_root(a[0])
                line = C.line_of(e)
                q = lines[-1] if lines else None
                good = q is not None and q.root == root and off == ZERO
                ctx.judge(good, RC, short + '::read: text of the chunk length', *line, 'the number is not made of the line that was read',
                          key='text|%s' % short, witness=w())
                ctx.judge(len(a) > 2 and a[2] == I(16), RC, short + '::read: chunk lengths are hexadecimal', *line,
                          'the number is read in base %s' % (show(a[2]) if len(a) > 2 else '?'), key='base|%s' % short, witness=w())
                if good:
                    c0 = char_at(s, root, q.off)[0]
                    c1 = char_at(s, root, sub(q.off, I(1)))[0]
                    ctx.judge(q.ok is True, RC, short + '::read: the line was read', *line, 'the number is used although a read failed',
                              key='lineok|%s' % short, witness=w())
                    ctx.judge(c0 == LF and c1 == CR, RC, short + '::read: the line of the chunk length ends in CR LF', *line,
                              'the number is used although its line is not known to end in CR LF', key='line|%s' % short, witness=w())
                    num = any(y[0] == 'call' and y[1].rsplit('::', 1)[-1] == 'isxdigit' and zero(s, y[5]) is False
                              and first_char(C.vargs(y)[0], root) for y in s.ev)
                    ends = [o for o in e[9] if o[0] == 1]
                    if ends:
                        t = ends[0][2]
                        num = num or s.truth(flow.eqatom(t, a[0])) is False
                    ctx.judge(num, RC, short + '::read: the chunk length is a number', *line,
                              'text that is no number is taken as the chunk length (0 ends the body)', key='number|%s' % short, witness=w())
                left = total = e[5]
            else:
                left, total = l0, s0
        if d is not None:
            ctx.judge(le(s, d.size, left), RC, short + '::read: what is left of the chunk', *d.line,
                      'asks for %s bytes, %s are left of the chunk' % (show(d.size), show(left)), key='cleft|%s' % short, witness=w())
        l1, t1 = final(s, LEFT), final(s, SIZE)
        if fails:
            ctx.judge(not became, RE, short + '::read: a failure is not the end', *here, 'the body is taken as ended although the read failed',
                      key='cfail|%s' % short, witness=w())
            continue
        ok = d is None or d.ok is not False
        got = ZERO if d is None else d.n
        ctx.judge(ok and all(q.ok is not False for q in own), RC, short + '::read: success means the reads succeeded', *here,
                  'answers success although a read failed', key='cok|%s' % short, witness=w())
        ctx.judge(same(s, l1, sub(left, got)), RC, short + '::read: bytes of the chunk counted', *(d.line if d else here),
                  'of the chunk %s bytes are left after a read of %s; counted: %s' % (show(left), show(got), show(l1)), key='ccount|%s' % short,
                  witness=w())
        ctx.judge(same(s, t1, total), RC, short + '::read: the length of the chunk is kept', *here, 'the length of the chunk is %s, kept is %s'
                  % (show(total), show(t1)), key='ctotal|%s' % short, witness=w())
        rep = final(s, out)
        ctx.judge(same(s, rep, got), RC, short + '::read: bytes reported', *(d.line if d else here), 'reports %s bytes, %s were read'
                  % (show(rep), show(got)), key='creport|%s' % short, witness=w())
        used = zero(s, sub(left, got)) if sub(left, got) != ZERO else True
        if used is None and le(s, sub(left, got), ZERO):
            used = True
        last = zero(s, total)
        if d is None and last is not True and zero(s, psize) is not True:
            ctx.fail(RC, short + '::read: success means data or the end', *here, 'answers success without having read data of a chunk that has some',
                     key='cnodata|%s' % short, witness=w())
            continue
        checked = False
        for q in tails:
            if q.full and q.size == I(2) and q.ok is True:
                checked = char_at(s, q.root, q.off)[0] == CR and char_at(s, q.root, add(q.off, I(1)))[0] == LF
        if used is None:
            ctx.fail(RC, short + '::read: is the chunk used up', *here, 'answers success without knowing whether the chunk is used up',
                     key='cused|%s' % short, witness=w())
            continue
        if used:
            ctx.judge(len(tails) == 1 and checked, RC, short + '::read: the CR LF after a chunk', *here,
                      'the chunk is used up but the CR LF behind it is %s' % ('not checked' if tails else 'not read'), key='tail|%s' % short, witness=w())
        else:
            ctx.judge(not tails, RC, short + '::read: no CR LF inside of a chunk', *(tails[0].line if tails else here),
                      'bytes of the chunk are taken for the CR LF behind it', key='notail|%s' % short, witness=w())
        if became:
            ctx.judge(last is True and checked, RE, short + '::read: the end of a chunked body', *here,
                      'the body is taken as ended although the chunk is not the one of size 0', key='cend|%s' % short, witness=w())
        else:
            ctx.judge(last is False, RE, short + '::read: the chunk of size 0 ends the body', *here,
                      'after the chunk of size 0 the body goes on', key='cnoend|%s' % short, witness=w())
    if not known:
        raise AnalysisError('%s: no path looks at the framing' % short)
    # the line of the chunk length is read byte by byte, inside of its buffer, up to the first LF
    for n, fn, s, again in x.iter_ends:
        rd = [q for q in ios(s) if q.root != pbuf]
        if not rd:
            continue
        q = rd[-1]
        q.ok = zero(s, q.res)
        if again:
            c, ne = char_at(s, q.root, q.off)
            ctx.judge(q.ok is True and LF in ne, RC, short + ': the line of the chunk length ends at its first LF', *q.line,
                      'reads on behind the end of the line', key='lf|%s' % short, witness=C.witness(s))
    for f2 in {q.e[8] for n, fn, s, again in x.iter_ends for q in ios(s)}:
        pass


def same(s, a, b):
    d = sub(a, b)
    return d == ZERO or s.truth(flow.eqatom(a, b)) is True or (le(s, a, b) and le(s, b, a))


def first_char(v, root):
    while v[0] in ('tr', 'cv'):
        v = v[-1]
    return v[0] == 'ld' and v[1][0] == 'I' and v[1][1] == root and v[1][2] == ZERO


def is_ge(t, a, b):
    """is t the truth value of a >= b (or of a == b)?"""
    for y in subterms(t):
        if y[0] == 'le0' and sub(y[1], sub(b, a)) == ZERO:
            return True
        if y[0] == 'eq' and len(y) == 3 and sub(y[1], y[2]) in (sub(a, b), sub(b, a)):
            return True
    return False


# ---------------------------------------------------------------------- what the header says
def header_names(ctx):
    prog = ctx.prog
    R = 'header-names'
    ctx.rule(R, 'a header is found by its name whatever its case: no lookup compares the name of a header letter by letter')
    KEY = 'sps::RequestHeader::key'
    decisive = ('content-length', 'transfer-encoding', 'host', 'connection')

    def has_key(n):
        return any(m.get('k') == 'mem' and m.get('q') == KEY for m in walk(n))
    n = 0
    for f in prog.funcs.values():
        if not f.get('body') or not f['file'].startswith('src/') or '/test' in f['file']:
            continue
        if not any(m.get('k') in ('mem', 'var') and (m.get('q') or m.get('n') or '').rsplit('::', 1)[-1] == 'headers' for m in walk(f['body'])):
            continue       # the same type also holds the parameters of an url
        for c in walk(f['body']):
            if c.get('k') != 'call':
                continue
            name = c.get('f', '').rsplit('::', 1)[-1]
            args = list(c.get('args', []))
            if c.get('obj') is not None:
                args = [c['obj']] + args
            if name not in ('operator==', 'operator!=', 'compare', 'strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp'):
                continue
            if len(args) < 2 or not any(has_key(a) for a in args):
                continue
            lit = [m['v'].lower() for a in args if not has_key(a) for m in walk(a) if m.get('k') == 'str']
            if lit and lit[0] not in decisive:
                continue
            n += 1
            ctx.judge('case' in name, R, 'lookup in %s' % C.short(f['f']), f['file'], c.get('l') or f['l'], f['f'],
                      'compares the name of a header letter by letter', key='case|' + f['f'])
    if n < 2:
        raise AnalysisError('no lookup of headers found')


def header_values(ctx):
    prog = ctx.prog
    R = 'header-values'
    ctx.rule(R, 'the status, the length and the framing of a message are those its header says: the parser\'s for a response, the header\'s own '
             'number for a request, and -1 exactly when it names no length')
    f = prog.fn('sps::HttpParserContext::parse_response')
    x, res = run(ctx, f)
    want = {'status_code': ('status_code',), 'content_length': ('content_length',), 'chunked': ('uses_transfer_encoding',), 'headers': ('headers',)}
    for s, v in res:
        if zero(s, v) is False:
            continue
        for name, src in want.items():
            st = [e for e in s.ev if e[0] in ('st',) and e[1][0] == 'F' and e[1][2] == 'sps::HttpResponse::' + name]
            if not st:
                st = [('st', k, val, f['l'], f['file'], f['f']) for k, val in s.store.items() if k[0] == 'F' and k[2] == 'sps::HttpResponse::' + name]
            ok = bool(st) and all(any(t[0] == 'ld' and t[1][0] == 'F' and t[1][2].rsplit('::', 1)[-1] in src for t in subterms(e[2])) for e in st[-1:])
            ctx.judge(ok, R, 'response: %s' % name, f['file'], f['l'], f['f'], 'the %s of the response is %s' %
                      (name, show(st[-1][2]) if st else 'not set'), key='rsp|' + name, witness=C.witness(s, v))
    f = prog.fn('sps::RequestUrl::get_content_length')
    x, res = run(ctx, f, inline=lambda g, fr=None: g['file'] == f['file'] and not g['f'].endswith('::get_header'))
    for s, v in res:
        gh = [e for e in s.ev if e[0] == 'call' and e[1].endswith('::get_header')]
        ok = bool(gh) and C.vargs(gh[0])[0] == ('s', 'Content-Length') or bool(gh) and C.vargs(gh[0])[0][0] == 's' and C.vargs(gh[0])[0][1].lower() == 'content-length'
        ctx.judge(ok, R, 'request: the length is looked up', f['file'], f['l'], f['f'], 'looks up %s' % (show(C.vargs(gh[0])[0]) if gh else 'nothing'),
                  key='req|lookup', witness=C.witness(s, v))
        if not ok:
            continue
        t = gh[0][5]
        num = [e for e in s.ev if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('atoll', 'strtoll', 'strtoull', 'stoll', 'strtoul', 'strtol', 'atol', 'atoi', 'stoi', 'stol')]
        if num:
            wide = num[-1][1].rsplit('::', 1)[-1] not in ('atoi', 'stoi')
            ctx.judge(wide and contains_term(v, num[-1][5]) and any(contains_term(a, t) for a in C.vargs(num[-1]) if isinstance(a, tuple)), R,
                      'request: the length is the number of the header', *C.line_of(num[-1]),
                      'the length answered is %s' % (show(v) if wide else 'cut to 32 bits'), key='req|number', witness=C.witness(s, v))
        else:
            empty = any(b and a[0] == 'call' and a[1] == 'empty' and contains_term(a[2], t) for a, b in s.facts) \
                or any(val == ZERO and k[0] == 'call' and k[1] in ('size', 'length') and contains_term(k[2], t) for k, val in s.eq.items())
            ctx.judge(empty and s.entails_le0(add(v, I(1))), R, 'request: no length', f['file'], f['l'], f['f'],
                      'answers %s without a number in the header' % show(v) if empty else 'answers %s although the header may name a length' % show(v),
                      key='req|none', witness=C.witness(s, v))


def contains_term(t, x):
    return any(y == x for y in subterms(t))
