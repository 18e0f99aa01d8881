"""P11: what is written of an http message"""
import re
import flow
from flow import ZERO, NULL, I, show, subterms, sub, add
from program import AnalysisError, walk
from rules import common as C
from rules.http import run, zero, le, final, mine, fld, buffer_root

RSP = 'sps::HttpResponseSocket'
FRAMING = ('content-length', 'transfer-encoding')


def define(prog, name, default=None):
    from rules.config import error_code
    return error_code(prog, name)


# ---------------------------------------------------------------------- text of streams
def stream_of(v, roots):
    if v is None:
        return None
    if v[0] in ('ref', 'ad'):
        l = v[1]
        if l[0] == 'X':
            return roots.get(l[1])
        if l[0] in ('L', 'F', 'D'):
            return l
    return roots.get(v)


class Texts:
    """what the path wrote into its string streams"""
    def __init__(self, s):
        self.s = s
        roots, self.pieces, self.byout = {}, {}, {}
        for i, e in enumerate(s.ev):
            if e[0] != 'call' or not e[1].endswith('operator<<'):
                continue
            vals = list(e[4])
            if e[3] is not None:
                base, rest = e[3], vals
            else:
                base, rest = vals[0], vals[1:]
            r = stream_of(base, roots)
            if r is None or not rest:
                continue
            roots[e[5]] = r
            v = rest[0]
            if v[0] == 'ref':
                v = v[2]
            self.pieces.setdefault(r, []).append((i, v))
            self.byout[e[5][2]] = r

    def of(self, term, at):
        """pieces of the text that a term (cstr(stream.str()), stream.str(), literal) stands for, or None"""
        if term[0] == 's':
            return [('s', term[1])]
        if term[0] == 'cstr':
            return self.of(term[1], at)
        if term[0] == 'cat':
            out = []
            for t in term[1:]:
                p = self.of(t, at)
                out += p if p is not None else [t]
            return out
        if term[0] == 'mr' and term[1] == 'str':
            muts = [(i, e) for i, e in enumerate(self.s.ev[:at]) if e[0] == 'mut' and e[1] == 'str' and e[7] == term[2]]
            r = muts[-1][1][2] if muts else None
            if r is not None and r not in self.pieces:
                return None
            at = muts[-1][0] if muts else at
            if r is None:
                return None
            return [v for i, v in self.pieces[r] if i < at]
        return None


def text(pieces):
    return ''.join(p[1] if p[0] == 's' else chr(p[1]) if p[0] == 'i' and p[1] in (10, 13) else '\x01' for p in pieces)


def differs(s, key, name):
    """is the header name known to be another one than `name`, whatever its case?"""
    for e in s.ev:
        if e[0] != 'call' or e[1].rsplit('::', 1)[-1] not in ('strcasecmp', 'strncasecmp', 'iequals', 'equals'):
            continue
        a = [t[1] if t[0] == 'cstr' else t for t in C.vargs(e)]
        if len(a) < 2:
            continue
        lit = [t for t in a if t[0] == 's' and t[1].lower() == name]
        if lit and any(t == key for t in a):
            z = zero(s, e[5])
            if e[1].rsplit('::', 1)[-1].startswith('str') and z is False:
                return True
    return False


def p11(ctx):
    response_write(ctx)
    framing(ctx)
    request_text(ctx)
    relay(ctx)
    endings(ctx)
    requests(ctx)
    phases(ctx)


# ---------------------------------------------------------------------- header, chunks, data
def response_write(ctx):
    prog = ctx.prog
    R = 'message'
    ctx.rule(R, 'HttpResponseSocket::write sends the header first and once, then the data given to it once; when chunked, the data is preceded by its '
             'own size in hexadecimal and CR LF and followed by CR LF; success means that all of it was sent')
    f = prog.fn(RSP + '::write')
    hdr = prog.fn(RSP + '::write_header')
    sent0 = ('ld', mine(fld(RSP, prog, 'sent_header')), 0)
    ch0 = ('ld', mine(fld(RSP, prog, 'chunked')), 0)
    SENT = mine(fld(RSP, prog, 'sent_header'))
    x, res = run(ctx, f, model={hdr['f']: C.event_only(hdr['f'])}, inline=lambda g, fr=None: g['file'] == f['file'] and g['f'] != hdr['f'])
    buf, size = [('p', p['n']) for p in f['params'][:2]]
    here = (f['file'], f['l'], f['f'])
    for s, v in res:
        w = C.witness(s, v)
        T = Texts(s)
        seq = []
        order = []
        for i, e in enumerate(s.ev):
            if e[0] != 'call':
                continue
            n = e[1].rsplit('::', 1)[-1]
            if e[1] == hdr['f']:
                order.append(('H', e, None))
            elif n == 'write' and len(e[4]) == 2:
                a = C.vargs(e)
                if buffer_root(a[0])[0] == buf:
                    order.append(('D', e, None))
                else:
                    order.append(('T', e, T.of(a[0], i)))
        kinds = ''.join(k for k, e, t in order)
        fail = zero(s, v) is False
        sent = zero(s, sent0)
        ch = zero(s, ch0)
        name = RSP[5:] + '::write: %s' % ('chunked' if ch is False else 'plain')
        # an error ends it
        for j, (k, e, t) in enumerate(order):
            bad = zero(s, e[5]) is not True
            if bad and (j + 1 < len(order)):
                ctx.fail(R, name + ': after a failure', *C.line_of(order[j + 1][1]), 'goes on writing although the write before may have failed',
                         key='go-on', witness=w)
        if order:
            ctx.judge(sent is not None and (kinds[0] == 'H') == (sent is True) and kinds.count('H') == (1 if sent is True else 0), R,
                      name + ': the header comes first', *C.line_of(order[0][1]), 'the header is %s' % ('sent again' if sent is False else 'not sent first'),
                      key='header-first', witness=w)
        if fail:
            continue
        s1 = s
        if zero(s, v) is None:
            s1 = s.assume(flow.eqatom(v, ZERO), True) or s
        ctx.judge(all(zero(s1, e[5]) is True for k, e, t in order), R, name + ': success means sent', *here,
                  'answers success although a write may have failed', key='success', witness=w)
        body = kinds.lstrip('H')
        some = not le(s, size, ZERO)
        if ch is None:
            ctx.judge(not order, R, name + ': the framing is looked at', *here, 'writes without looking at the framing', key='framing', witness=w)
            continue
        empty = zero(s, size) is True or le(s, size, ZERO)
        if ch is True:
            ok = body == 'D' or (empty and body == '')
            ctx.judge(ok, R, name + ': the data, once', *here, 'writes %s instead of the data once' % (order_text(order) or 'nothing'), key='plain', witness=w)
        else:
            ok = body == 'TDT' or (empty and body == 'TT')
            if empty and body == 'T':
                # one text with everything
                t = order[-1][2]
                ok = t is not None and chunk_head(t, size) and text(t).endswith('\r\n\r\n')
            elif ok:
                texts = [t for k, e, t in order if k == 'T']
                ctx.judge(texts[0] is None or chunk_head(texts[0], size), R, name + ': size of the chunk', *C.line_of([e for k, e, t in order if k == 'T'][0]),
                          'the chunk does not begin with the size of its data in hexadecimal and CR LF', key='head', witness=w)
                ctx.judge(texts[1] is None or text(texts[1]) == '\r\n', R, name + ': end of the chunk', *C.line_of([e for k, e, t in order if k == 'T'][1]),
                          'the chunk does not end in CR LF', key='tail', witness=w)
            ctx.judge(ok, R, name + ': size, data, CR LF', *here, 'writes %s instead of size, data and CR LF' % (order_text(order) or 'nothing'),
                      key='chunk', witness=w)
        for k, e, t in order:
            a = C.vargs(e)
            if k == 'D':
                ctx.judge(a[1] == size and buffer_root(a[0])[1] == ZERO, R, name + ': all of the data', *C.line_of(e), 'writes %s bytes of %s'
                          % (show(a[1]), show(size)), key='all', witness=w)
            elif k == 'T' and t is not None:
                n = a[1]
                lit = a[0][0] == 's'
                good = n == I(len(text(t))) if lit else n == ('call', 'size', a[0][1] if a[0][0] == 'cstr' else a[0]) or n[0] == 'call' and n[1] in ('size', 'length')
                ctx.judge(good, R, name + ': length of the text', *C.line_of(e), 'writes %s bytes of %r' % (show(n), text(t)), key='textlen', witness=w)
    # the header is sent once: write_header remembers it
    x, res = run(ctx, hdr)
    for s, v in res:
        ws = [e for e in s.ev if e[0] == 'call' and e[1].rsplit('::', 1)[-1] == 'write' and len(e[4]) == 2]
        if zero(s, v) is False:
            continue
        ctx.judge(len(ws) == 1 and final(s, SENT) == I(1), R, 'write_header: sent once and remembered', hdr['file'], hdr['l'], hdr['f'],
                  'the header is %s' % ('written %d times' % len(ws) if len(ws) != 1 else 'not remembered as sent'), key='remember', witness=C.witness(s, v))


def chunk_head(t, size):
    """std::hex, size, CR LF"""
    hexed = False
    rest = []
    for p in t:
        if p[0] in ('fnref', 'fn') and 'hex' in repr(p):
            hexed = True
        elif p[0] in ('fnref', 'fn') and 'dec' in repr(p):
            hexed = False
        else:
            rest.append((p, hexed))
    if not rest or rest[0] != (size, True):
        return False
    return text([p for p, h in rest[1:]]).startswith('\r\n')


def order_text(order):
    return ', '.join({'H': 'header', 'D': 'data', 'T': 'text'}[k] for k, e, t in order)


# ---------------------------------------------------------------------- one framing header
def lines_ok(t):
    return t.endswith('\r\n\r\n') and t.count('\r\n\r\n') == 1


def header_rules(ctx, R, f, s, v, pieces, w, names, kind):
    t = text(pieces)
    here = (f['file'], f['l'], f['f'])
    ctx.judge(lines_ok(t), R, kind + ': one empty line, at the end', *here, 'the header reads %r' % t.replace('\x01', '*')[:90], key=kind + '|lines', witness=w)
    low = t.lower()
    count = sum(low.count('\r\n' + n + ':') for n in FRAMING)
    # headers copied from somewhere else
    for p in pieces:
        if p[0] == 'ld' and p[1][0] == 'F' and p[1][2].endswith('::key'):
            need = [n for n in names(count)]
            miss = [n for n in need if not differs(s, p, n)]
            ctx.judge(not miss, R, kind + ': copied headers', *here, 'a header of the original that may be %s is copied beside the one written here'
                      % ' or '.join(miss), key=kind + '|copied', witness=w)
    return count


def framing(ctx):
    prog = ctx.prog
    R = 'framing'
    ctx.rule(R, 'every header written ends with its only empty line and carries exactly one of Content-Length and Transfer-Encoding, '
             'once, that matches how the body is written; copied headers never repeat it, whatever the case of their names')
    f = prog.fn(RSP + '::write_header')
    ch0 = ('ld', mine(fld(RSP, prog, 'chunked')), 0)
    cl0 = ('ld', mine(fld(RSP, prog, 'content_length')), 0)
    x, res = run(ctx, f)
    n = 0
    for s, v in res:
        T = Texts(s)
        for i, e in enumerate(s.ev):
            if e[0] == 'call' and e[1].rsplit('::', 1)[-1] == 'write' and len(e[4]) == 2:
                p = T.of(C.vargs(e)[0], i)
                if p is None:
                    continue
                n += 1
                w = C.witness(s, v)
                count = header_rules(ctx, R, f, s, v, p, w, lambda c: FRAMING if c else (), 'response header')
                t = text(p)
                ch, cl = zero(s, ch0), le(s, ZERO, cl0)
                want = 'Transfer-Encoding: chunked\r\n' if ch is False else 'Content-Length: ' if ch is True and cl else None
                none = ch is True and le(s, cl0, I(-1))
                ok = (count == 1 and want is not None and '\r\n' + want in t) or (none and count == 0)
                if ok and want == 'Content-Length: ':
                    k = next(j for j, q in enumerate(p) if q[0] == 's' and q[1].endswith(want))
                    ok = k + 1 < len(p) and p[k + 1] == cl0
                ctx.judge(ok, R, 'response header: its framing', f['file'], f['l'], f['f'],
                          'a body that is %s is announced by %d framing headers' % ('chunked' if ch is False else 'of a known length' if cl else
                                                                                   'of no known length' if none else 'of some kind', count),
                          key='rsp|framing', witness=w)
                m = re.match(r'HTTP/1\.1 \x01 ', t)
                ctx.judge(bool(m), R, 'response header: status line', f['file'], f['l'], f['f'], 'the header begins with %r' % t[:30].replace('\x01', '*'),
                          key='rsp|status', witness=w)
    ctx.obl_note = n


def request_text(ctx):
    prog = ctx.prog
    R = 'framing'
    f = prog.fn('sps::http_request')
    x, res = run(ctx, f)
    pn = [p['n'] for p in f['params']]
    for s, v in res:
        T = Texts(s)
        p = T.of(v, len(s.ev))
        if p is None:
            continue
        w = C.witness(s, v)
        count = header_rules(ctx, R, f, s, v, p, w, lambda c: FRAMING + ('host',), 'request header')
        ctx.judge(count == 1, R, 'request header: its framing', f['file'], f['l'], f['f'], 'carries %d framing headers' % count, key='req|framing', witness=w)
        t = text(p)
        ctx.judge(t.lower().count('\r\nhost:') == 1, R, 'request header: its host', f['file'], f['l'], f['f'], 'names its host %d times'
                  % t.lower().count('\r\nhost:'), key='req|host', witness=w)
        ctx.judge(bool(re.match(r'\x01 \x01 HTTP/1\.1\r\n', t)), R, 'request header: request line', f['file'], f['l'], f['f'],
                  'the header begins with %r' % t[:30].replace('\x01', '*'), key='req|line', witness=w)


# ---------------------------------------------------------------------- the proxy
def relay(ctx):
    prog = ctx.prog
    R = 'relay'
    ctx.rule(R, 'the proxy writes every piece it read of the body exactly once, with the length that was read, and before it reads again; it takes '
             'the status, the headers and the framing of the response it forwards, and answers success only when the body was read to its end')
    f = prog.fn('sps::HttpProxyPhaseHandler::handler')
    eof = define(prog, 'ERROR_HTTP_RES_EOF')
    x, res = run(ctx, f)
    here = (f['file'], f['l'], f['f'])

    def seq(s):
        out = []
        for e in s.ev:
            if e[0] != 'call':
                continue
            n = e[1].rsplit('::', 1)[-1]
            if n in ('read', 'read_fully') and len(e[4]) == 3:
                out.append(('R', e))
            elif n == 'write' and len(e[4]) == 2:
                out.append(('W', e))
        return out
    paths = [(s, v, False) for s, v in res] + [(s, None, True) for n, fn, s, again in x.iter_ends if again]
    for s, v, open_ in paths:
        w = C.witness(s, v)
        q = seq(s)
        have = None
        for i, (k, e) in enumerate(q):
            a = C.vargs(e)
            z = zero(s, e[5])
            if k == 'R':
                if have is not None:
                    ctx.fail(R, 'proxy: a piece that was read is written', *C.line_of(have[0]), 'a piece of the body was read and not written', key='lost', witness=w)
                out = [o[2] for o in e[9] if o[0] == 2]
                n = a[1] if e[1].endswith('fully') else (out[0] if out else None)
                have = (e, buffer_root(a[0]), n) if z is True else None
            else:
                if have is None:
                    ctx.fail(R, 'proxy: what is written was read', *C.line_of(e), 'writes although nothing new was read', key='twice', witness=w)
                    continue
                ctx.judge(buffer_root(a[0]) == have[1] and a[1] == have[2], R, 'proxy: the piece and its length', *C.line_of(e),
                          'writes %s bytes, %s were read' % (show(a[1]), show(have[2])), key='length', witness=w)
                ctx.judge(z is not None and (z is True or (not open_ and i + 1 == len(q))), R, 'proxy: a failed write ends it', *C.line_of(e),
                          'goes on after a write that may have failed', key='wfail', witness=w)
                have = None
        if have is not None and v is not None:
            ctx.fail(R, 'proxy: a piece that was read is written', *C.line_of(have[0]), 'a piece of the body was read and not written', key='lost', witness=w)
        init = [e for e in s.ev if e[0] == 'call' and e[1] == RSP + '::init']
        for e in init:
            a = C.vargs(e)
            ok = [holds(a[0], 'status_code'), holds(a[1], 'headers'), holds(a[2], 'content_length'), holds(a[3], 'chunked')]
            ctx.judge(all(ok), R, 'proxy: the response is the one that was read', *C.line_of(e), 'its %s is not that of the response that was read'
                      % ['status', 'headers', 'length', 'framing'][ok.index(False)] if not all(ok) else '', key='init', witness=w)
        if v is not None and not is_error(s, v):
            rd = [e for k, e in q if k == 'R']
            ctx.judge(bool(rd) and s.truth(flow.eqatom(rd[-1][5], I(eof))) is True, R, 'proxy: success means the end of the body', *here,
                      'answers success although the body was not read to its end', key='end', witness=w)


def is_error(s, v):
    """an answer that ends the connection: a constant other than 0 and 1, or the non-zero answer of something below"""
    return v[0] == 'i' and v[1] not in (0, 1) or v[0] != 'i' and zero(s, v) is False


def holds(t, name):
    if t[0] == 'ad':
        t = ('ld', t[1], 0)
    return t[0] == 'ld' and t[1][0] == 'F' and t[1][2].rsplit('::', 1)[-1] == name


# ---------------------------------------------------------------------- responses without a length
def endings(ctx):
    prog = ctx.prog
    R = 'ending'
    ctx.rule(R, 'a handler that leaves the connection open (answers 0 or 1) has sent one response whose end the client can tell: chunked, or of a length')
    for f in sorted(prog.funcs.values(), key=lambda g: g['f']):
        if f.get('body') is None or not calls(f, RSP + '::init') or f['f'].startswith(RSP):
            continue
        if f['f'] == 'sps::HttpProxyPhaseHandler::handler':
            continue
        hdr = RSP + '::write_header'
        stream = 'src/module/stream/'
        x, res = run(ctx, f, inline=lambda g, fr=None: (g['file'] == f['file'] or g['file'].startswith(stream) and calls_any(g)) and g['f'] != hdr,
                     model={})
        for s, v in res:
            if is_error(s, v):
                continue
            w = C.witness(s, v)
            last, sent = None, 0
            unknown = False
            total = 0
            for e in s.ev:
                if e[0] != 'call':
                    continue
                if e[1] == RSP + '::init':
                    last = C.vargs(e)
                    sent = 0
                elif e[1] == hdr:
                    sent += 1
                    total += 1
            what = f['f'][5:] + ': an answer that keeps the connection'
            if last is None:
                continue
            bounded = last[3] not in (ZERO,) and zero(s, last[3]) is False or le(s, ZERO, last[2])
            wrote = [e for e in s.ev if e[0] == 'call' and re.search('::write(_header|_packet|_message)?$', e[1])]
            if not bounded and not wrote:
                continue       # nothing was sent at all
            ctx.judge(bounded, R, what, f['file'], f['l'], f['f'], 'keeps the connection open after a response without a length', key='open|' + f['f'],
                      witness=w)
            if bounded:
                ctx.judge(total == 1 and sent == 1, R, what + ' after one response', f['file'], f['l'], f['f'],
                          'keeps the connection open after %d responses' % total, key='count|' + f['f'], witness=w)


def calls(f, name):
    return any(n.get('k') == 'call' and n.get('f') == name for n in walk(f['body']))


def calls_any(g):
    return any(n.get('k') == 'call' for n in walk(g['body'])) if g.get('body') else False


# ---------------------------------------------------------------------- requests on one connection
def requests(ctx):
    prog = ctx.prog
    R = 'next-request'
    ctx.rule(R, 'a request is read from a connection only when the body of the request before was used up or there was none; the context of the connection '
             'is then the one of the new request')
    f = prog.fn('sps::HttpParsePhaseHandler::handler')
    x, res = run(ctx, f, inline=lambda g, fr=None: g['file'] == f['file'] or g['f'] in ('sps::IConnection::get_context',))
    for s, v in res:
        ps = [e for e in s.ev if e[0] == 'call' and e[1] == 'sps::HttpParser::parse_header']
        if not ps:
            continue
        w = C.witness(s, v)
        nolast = any(a[0] == 'eq' and a[2] == NULL and b and any(t[0] == 'dyn' for t in subterms(a[1])) for a, b in s.facts)
        nolast = nolast or any(k[0] == 'dyn' and x == NULL for k, x in s.eq.items())
        first = next(i for i, e in enumerate(s.ev) if e is ps[0])
        before = s.ev[:first]
        chunk = [e for e in before if e[0] == 'call' and e[1].endswith('::is_chunked') and zero(s, e[5]) is True]
        length = [e for e in before if e[0] == 'call' and e[1].endswith('::get_content_length') and le(s, e[5], ZERO)]
        ctx.judge(nolast or (chunk and length), R, 'the body of the request before', *C.line_of(ps[0]),
                  'the next request is read although the body of the one before may still be unread', key='unread', witness=w)
        if zero(s, v) is True:
            sc = [e for e in s.ev if e[0] == 'call' and e[1].endswith('::set_context')]
            ok = bool(sc) and le(s, I(1), ps[0][5])
            ctx.judge(ok, R, 'the context of the new request', f['file'], f['l'], f['f'],
                      'goes on %s' % ('although no request was read' if sc else 'with the context of the request before'), key='context', witness=w)


def phases(ctx):
    prog = ctx.prog
    R = 'phases'
    ctx.rule(R, 'a request goes through the handlers in order: the next one only after the answer "continue" (0), none after "done" (1), and an error of '
             'one is the answer of all; the connection reads the next request only after success')
    f = prog.fn('sps::ServerPhaseHandler::handler')
    x, res = run(ctx, f)
    n = 0
    for node, fn, s, again in x.iter_ends:
        hs = handler_calls(s)
        if again and hs:
            n += 1
            ctx.judge(len(hs) == 1 and zero(s, hs[-1][5]) is True, R, 'the next handler follows "continue"', *C.line_of(hs[-1]),
                      'the next handler is run although this one did not answer "continue"', key='next', witness=C.witness(s))
    for s, v in res:
        hs = handler_calls(s)
        if not hs:
            continue
        n += 1
        r = hs[-1][5]
        done = s.truth(flow.eqatom(r, I(1))) is True
        if done:
            ok = v == ZERO
            msg = 'a request that was served is answered with %s: the connection would end' % show(v)
        elif zero(s, r) is True:
            ok = v == r or v == ZERO
            msg = 'a request all handlers let pass is answered with %s' % show(v)
        else:
            ok = v == r or zero(s, v) is False
            msg = 'the error of a handler is lost'
        ctx.judge(ok, R, 'the answer of the handlers', f['file'], f['l'], f['f'], msg, key='answer', witness=C.witness(s, v))
    f = prog.fn('sps::Connection::handler')
    x, res = run(ctx, f, inline=lambda g, fr=None: g['f'].startswith('sps::Connection::'))
    for node, fn, s, again in x.iter_ends:
        hs = handler_calls(s)
        if again:
            n += 1
            ctx.judge(len(hs) == 1 and zero(s, hs[-1][5]) is True, R, 'the next request follows success', f['file'], f['l'], f['f'],
                      'the next request is read although the one before failed', key='conn', witness=C.witness(s))
    if n < 3:
        raise AnalysisError('phases: %d' % n)


def handler_calls(s):
    return [e for e in s.ev if e[0] == 'call' and e[1].endswith('::handler')]
