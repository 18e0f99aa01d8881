"""P14: formatted output (log lines, formatted buffers).

A flow-insensitive query over every call of a printf-like function: what is the
format, do the conversions agree with the arguments, does the write fit."""
import re
from program import walk, AnalysisError

CONV = re.compile(r'%(?:(%)|([-+ #0]*)(\*|\d+)?(?:(\.)(\*|\d*))?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspnCSm]))')
# C functions: position of format, first variable argument (None: va_list)
LIBC = {'printf': (0, 1), 'fprintf': (1, 2), 'dprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'asprintf': (1, 2),
        'syslog': (1, 2), 'vprintf': (0, None), 'vfprintf': (1, None), 'vdprintf': (1, None), 'vsprintf': (1, None),
        'vsnprintf': (2, None), 'vasprintf': (1, None), 'vsyslog': (1, None), 'av_log': (2, 3), 'av_strlcatf': (2, 3),
        'RTMP_Log': (1, 2)}
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1)}
UNSIZED = {'sprintf': 0, 'vsprintf': 0}
UNBOUNDED = {'strcpy', 'strcat', 'gets', 'stpcpy'}
# functions of the C/C++ libraries that answer terminated strings
TERMINATED = {'strerror', 'std::basic_string::c_str', 'std::basic_string::data', 'std::type_info::name', 'inet_ntoa', 'inet_ntop',
              'getenv', 'gai_strerror', 'srt_getlasterror_str', 'srt_strerror', 'SSL_get_version', 'ERR_error_string',
              'SSL_CIPHER_get_name', 'SSL_get_cipher', 'av_get_media_type_string', 'avcodec_get_name', 'hstrerror', 'basename',
              'strrchr', 'strchr', 'strstr', '__builtin_strrchr', 'ctime', 'asctime', 'SSL_state_string_long',
              'ERR_reason_error_string', 'ERR_lib_error_string', 'av_make_error_string', 'std::exception::what'}


def conversions(fmt):
    """[(class, flags)] of the arguments a format consumes, or None when malformed"""
    out, i = [], 0
    while True:
        i = fmt.find('%', i)
        if i < 0:
            return out
        m = CONV.match(fmt, i)
        if not m:
            return None
        i = m.end()
        if m.group(1):
            continue
        if m.group(3) == '*':
            out.append(('int', '*'))
        if m.group(5) == '*':
            out.append(('int', '.*'))
        c, ln = m.group(7), m.group(6) or ''
        if c == 'm':
            continue
        if c == 's':
            out.append(('str', 'bounded' if m.group(5) else ''))
        elif c == 'p':
            out.append(('ptr', ''))
        elif c == 'n':
            out.append(('n', ''))
        elif c in 'eEfFgGaA':
            out.append(('float', ln))
        elif c in 'CS':
            out.append(('wide', ''))
        else:
            out.append(('int', ln))


def maxlen(fmt, args):
    """an upper bound of the bytes a format produces (None: not bounded)"""
    n, i = 0, 0
    k = 0
    while i < len(fmt):
        if fmt[i] != '%':
            n += len(fmt[i].encode())
            i += 1
            continue
        m = CONV.match(fmt, i)
        if not m:
            return None
        i = m.end()
        if m.group(1):
            n += 1
            continue
        if m.group(3) == '*' or m.group(5) == '*':
            return None
        w = int(m.group(3) or 0)
        c = m.group(7)
        if c == 's':
            a = args[k] if k < len(args) else {}
            if m.group(5):
                b = int(m.group(5))
            elif a.get('k') == 'str' and a.get('v') != '__func__':
                b = len(a['v'].encode())
            else:
                return None
        elif c in 'diu':
            b = max(20 if (m.group(6) or '') in ('l', 'll', 'j', 'z', 't') else 11, int(m.group(5) or 0) + 1)
        elif c in 'xXo':
            b = (24 if (m.group(6) or '') in ('l', 'll', 'j', 'z', 't') else 13)
            b = max(b, int(m.group(5) or 0) + 2)
        elif c == 'c':
            b = 1
        elif c == 'p':
            b = 20
        else:
            return None
        k += 1
        n += max(w, b)
    return n


def kind(t):
    if t is None:
        return '?'
    if re.match(r'c?(p|a\d+|a):[iu]8$', t):
        return 'str'
    if re.match(r'c?(p|a\d+|a):', t) or t.startswith('p'):
        return 'ptr'
    if t in ('f32', 'f64', 'f80', 'f128'):
        return 'float'
    if re.match(r'[iu]\d+$', t) or t in ('b', 'bool', 'b8') or t.startswith('e:') or t.startswith('E:'):
        return 'int'
    return t


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'tovoid'):
        e = e['e']
    return e


class Formats:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.fam = {}      # usr -> (format position, first argument or None)
        self.calls = []    # (function, node)
        self.assigns = {}  # ('v', usr of function, id) / ('f', qualified field) -> [expr]
        self.returns = {}
        self.callsof = {}
        self.term_memo = {}
        self._index()
        self._family()

    def _index(self):
        for f in self.prog.funcs.values():
            for part in (f.get('body'), f.get('inits')):
                for n in walk(part):
                    k = n.get('k')
                    if k == 'call':
                        self.calls.append((f, n))
                        if n.get('u'):
                            self.callsof.setdefault(n['u'], []).append((f, n))
                    elif k == 'ctor' and n.get('u'):
                        self.callsof.setdefault(n['u'], []).append((f, n))
                    elif k == 'asg' and n.get('op') == '=':
                        key = self._lv(f, n['a'])
                        if key:
                            self.assigns.setdefault(key, []).append((f, n['c']))
                    elif k == 'asg':
                        key = self._lv(f, n['a'])
                        if key:
                            self.assigns.setdefault(key, []).append((f, n['a']))
                    elif k == 'decl':
                        for v in n['vars']:
                            if v.get('init') is not None:
                                self.assigns.setdefault(('v', f['u'], v['id']), []).append((f, v['init']))
                    elif k == 'return' and n.get('e') is not None:
                        self.returns.setdefault(f['u'], []).append((f, n['e']))
            for i in f.get('inits') or []:
                if i.get('q') and i.get('e') is not None:
                    self.assigns.setdefault(('f', i['q']), []).append((f, i['e']))
        for r in self.prog.records.values():
            for fd in r['fields']:
                if fd.get('init') is not None:
                    self.assigns.setdefault(('f', fd['q']), []).append((None, fd['init']))

    def _lv(self, f, e):
        e = strip(e)
        if e.get('k') == 'var':
            if e.get('g'):
                return ('g', e['g'])
            return ('v', f['u'], e['id'])
        if e.get('k') == 'mem':
            return ('f', e['q'])
        return None

    # ---------------------------------------------------------------- which functions take a format
    def position(self, n):
        if n.get('u') in self.fam:
            return self.fam[n['u']]
        if n.get('f') in LIBC and n.get('u') not in self.prog.funcs:
            return LIBC[n['f']]
        return None

    def _family(self):
        changed = True
        while changed:
            changed = False
            for f, n in self.calls:
                pos = self.position(n)
                if not pos or pos[0] >= len(n['args']):
                    continue
                a = strip(n['args'][pos[0]])
                if a.get('k') != 'var' or a.get('g'):
                    continue
                for i, p in enumerate(f['params']):
                    if p['id'] == a['id'] and not self.assigns.get(('v', f['u'], a['id'])):
                        mine = (i, len(f['params']) if f.get('variadic') else None)
                        todo, fam = [f['u']], set()
                        while todo:
                            u = todo.pop()
                            if u in fam:
                                continue
                            fam.add(u)
                            g = self.prog.funcs.get(u)
                            todo += (g or {}).get('over', [])
                            todo += list(self.prog.overriders.get(u, ()))
                        for u in fam:
                            if self.fam.get(u) != mine:
                                self.fam[u] = mine
                                changed = True

    def literals(self, f, e, seen=()):
        """the literal texts an expression can be, None when it may be anything else"""
        e = strip(e)
        k = e.get('k')
        if k == 'str' and e.get('v') != '__func__':
            return [e['v']]
        if k == 'cond':
            x = e.get('x') if not e.get('elvis') else e.get('a')
            a, b = self.literals(f, x, seen), self.literals(f, e['y'], seen)
            return None if a is None or b is None else a + b
        key = self._lv(f, e) if k == 'var' else None
        if key and key not in seen and key[0] in 'vg':
            src = self.assigns.get(key, [])
            if key[0] == 'v' and any(p['id'] == e['id'] for p in f['params']):
                return None
            if key[0] == 'g':
                g = self.prog.globals.get(key[1])
                if g and g.get('init'):
                    src = src + [(f, g['init'])]
            if not src:
                return None
            out = []
            for g, s in src:
                r = self.literals(g or f, s, seen + (key,))
                if r is None:
                    return None
                out += r
            return out
        return None

    # ---------------------------------------------------------------- terminated strings
    def terminated(self, f, e, seen=()):
        """None when every source of the value is a terminated string, else the doubtful source"""
        e = strip(e)
        k = e.get('k')
        if k in ('str', 'null', 'zero') or (k == 'int' and e.get('v') == 0):
            return None
        if k == 'cond':
            x = e.get('x') if not e.get('elvis') else e.get('a')
            return self.terminated(f, x, seen) or self.terminated(f, e['y'], seen)
        if k == 'bin' and e.get('op') in ('+', ','):
            s = [strip(e['a']), strip(e['c'])]
            if e['op'] == ',':
                return self.terminated(f, s[1], seen)
            p = [x for x in s if kind(x.get('t')) == 'str']
            return self.terminated(f, p[0], seen) if p else 'a sum'
        if k == 'call':
            g = e.get('f')
            if g in TERMINATED:
                return None
            u = e.get('u')
            tg = self.prog.impls(u) if u else []
            if not tg:
                return 'the result of %s' % (g or 'a call')
            if ('r', u) in seen:
                return None
            for d in tg:
                for h, r in self.returns.get(d['u'], []):
                    w = self.terminated(h, r, seen + (('r', u),))
                    if w:
                        return w
            return None
        if k in ('var', 'mem'):
            key = self._lv(f, e)
            if key in seen:
                return None
            if re.match(r'a\d+:', e.get('t') or ''):
                # an array: filled by a formatting call, or an initialised one
                return None if self.formatted(f, key) or self.closed(f, key) else 'the array %s, which no formatting call fills' % e.get('n')
            src = list(self.assigns.get(key, []))
            if key[0] == 'g':
                gl = self.prog.globals.get(key[1])
                if gl and gl.get('init'):
                    src.append((f, gl['init']))
            if key[0] == 'v':
                for i, p in enumerate(f['params']):
                    if p['id'] == e['id']:
                        if f['f'] == 'main':
                            return None
                        us = [f['u']] + list(f.get('over', []))
                        src += [(g, n['args'][i]) for u in us for g, n in self.callsof.get(u, []) if i < len(n['args'])]
                        if not src:
                            return None if not any(self.callsof.get(u) for u in us) else 'parameter %s' % p['n']
            if not src and key[0] == 'v':
                return 'variable %s' % e.get('n')
            for g, s in src:
                w = self.terminated(g or f, s, seen + (key,))
                if w:
                    return w
            return None
        if k == 'idx':
            b = strip(e['b'])
            if b.get('k') == 'var' and f['f'] == 'main':
                return None
            return 'an element of a table'
        if k == 'un' and e.get('op') == '&':
            return 'the address of %s' % (e['e'].get('n') or 'something')
        return 'an expression (%s)' % k

    def closed(self, f, key):
        """is a terminator stored into the array?"""
        for n in walk(f.get('body')):
            if n.get('k') == 'asg' and n.get('op') == '=' and n['a'].get('k') == 'idx' and self._lv(f, strip(n['a']['b'])) == key:
                c = strip(n['c'])
                if c.get('v', c.get('cv')) == 0:
                    return True
        return False

    def formatted(self, f, key):
        for g, n in self.calls:
            if n.get('f') in ('snprintf', 'vsnprintf', 'sprintf', 'strftime', 'inet_ntop', 'getnameinfo', 'gethostname', 'av_strerror',
                              'ERR_error_string_n') and g['u'] == f['u']:
                for a in n['args'][:4]:
                    if self._lv(g, a) == key:
                        return True
        return False

    # ---------------------------------------------------------------- sizes
    def capacity(self, f, e):
        """(bytes, text of the offset) of a destination: an array, or an array plus an offset"""
        e = strip(e)
        m = re.match(r'a(\d+):([iu])(\d+)', e.get('t') or '')
        if e.get('k') in ('var', 'mem') and m:
            return int(m.group(1)) * int(m.group(3)) // 8, None
        if e.get('k') == 'bin' and e.get('op') == '+':
            for x, o in ((e['a'], e['c']), (e['c'], e['a'])):
                c = self.capacity(f, x)
                if c and c[1] is None:
                    return c[0], strip(o)
        if e.get('k') == 'un' and e.get('op') == '&' and strip(e['e']).get('k') == 'idx':
            i = strip(e['e'])
            c = self.capacity(f, i['b'])
            if c and c[1] is None:
                return c[0], strip(i['i'])
        if e.get('k') == 'var' and not e.get('g'):
            src = self.assigns.get(('v', f['u'], e['id']), [])
            if len(src) == 1 and not any(p['id'] == e['id'] for p in f['params']):
                return self.capacity(f, src[0][1])
        return None

    def size_ok(self, f, size, cap, off):
        """does the size expression never exceed the capacity minus the offset?"""
        size = strip(size)
        c = self.const(f, size)
        if off is None:
            return c is not None and 0 <= c <= cap
        if self.const(f, off) is not None:
            return c is not None and 0 <= c <= cap - self.const(f, off)
        if size.get('k') == 'bin' and size.get('op') == '-':
            a, b = self.const(f, size['a']), strip(size['c'])
            return a is not None and a <= cap and self.same(b, off)
        if size.get('k') == 'var' and not size.get('g'):
            src = self.assigns.get(('v', f['u'], size['id']), [])
            if len(src) == 1:
                return self.size_ok(f, src[0][1], cap, off)
        return False

    def const(self, f, e):
        e = strip(e)
        if 'cv' in e:
            return e['cv']
        if e.get('k') == 'int':
            return e['v']
        if e.get('k') == 'var' and not e.get('g'):
            src = self.assigns.get(('v', f['u'], e['id']), [])
            if len(src) == 1 and not any(p['id'] == e['id'] for p in f['params']):
                s = strip(src[0][1])
                if 'cv' in s or s.get('k') == 'int':
                    return s.get('cv', s.get('v'))
        return None

    def same(self, a, b):
        a, b = strip(a), strip(b)
        if a.get('k') != b.get('k'):
            return False
        if a['k'] == 'var':
            return a.get('id') == b.get('id')
        if a['k'] == 'mem':
            return a.get('q') == b.get('q')
        return a['k'] == 'int' and a['v'] == b['v']


def run(ctx):
    fm = Formats(ctx)
    R1 = 'format-is-ours'
    ctx.rule(R1, 'the format of every printf-like call is a literal of the program, or the format its own function was given')
    R2 = 'arguments-agree'
    ctx.rule(R2, 'every conversion of the format finds an argument of its kind: strings get terminated strings, numbers numbers, nothing '
                 'is missing and nothing is written through %n')
    R3 = 'write-fits'
    ctx.rule(R3, 'a formatted write is given at most the room that is left in its array, and a returned length is used only when the '
                 'text cannot be longer than the array (or the length is compared first)')
    ctx.assume('a length passed for %.*s is the length of the text passed with it')
    ctx.assume('pointers handed to %s are null or live')
    n = 0
    for f, c in fm.calls:
        name = c.get('f')
        if name in UNBOUNDED and c.get('u') not in ctx.prog.funcs:
            ctx.fail(R3, '%s in %s' % (name, f['f']), f['file'], c['l'], f['f'], '%s has no bound on what it writes' % name)
            continue
        pos = fm.position(c)
        if not pos:
            continue
        n += 1
        ctx.analysed.add(f['f'])
        args = c['args']
        fa = strip(args[pos[0]]) if pos[0] < len(args) else {}
        what = 'call of %s in %s' % (name, f['f'])
        if fa.get('k') == 'var' and not fa.get('g') and f['u'] in fm.fam and \
                f['params'][fm.fam[f['u']][0]]['id'] == fa['id']:
            ctx.ok(R1, what + ' forwards the format it was given')
            fmts = None
            if pos[1] is not None:
                ctx.fail(R2, what, f['file'], c['l'], f['f'],
                         'the format this function was given is used with other arguments than those given with it')
        else:
            fmts = fm.literals(f, fa)
            tag = what + ' %r' % (fmts[0][:40] if fmts else fa.get('k'))
            ctx.judge(fmts is not None, R1, tag, f['file'], c['l'], f['f'],
                      'the format handed to %s is not a literal of the program: text from a peer in it is interpreted' % name)
        for fmt in fmts or ():
            tag = what + ' %r' % fmt[-60:]
            cs = conversions(fmt)
            if cs is None:
                ctx.fail(R2, tag, f['file'], c['l'], f['f'], 'the format %r has a conversion that does not exist' % fmt)
                continue
            if pos[1] is None:
                continue
            va = args[pos[1]:]
            if len(cs) > len(va):
                ctx.fail(R2, tag, f['file'], c['l'], f['f'],
                         '%d conversions but %d arguments: %r' % (len(cs), len(va), fmt))
                continue
            bad = None
            for i, ((k, fl), a) in enumerate(zip(cs, va)):
                a = strip(a) if kind(a.get('t')) in ('str', 'ptr') else a
                ak = kind(a.get('ct') or a.get('t'))
                if k == 'n':
                    bad = 'the format writes through %n'
                elif k == 'str':
                    if ak != 'str':
                        bad = 'conversion %d is a string, its argument a %s' % (i + 1, a.get('t'))
                    elif fl != 'bounded':
                        w = fm.terminated(f, a)
                        if w:
                            bad = 'conversion %d reads a terminated string, its argument is %s' % (i + 1, w)
                elif k == 'int' and ak != 'int':
                    bad = 'conversion %d is an integer, its argument a %s' % (i + 1, a.get('t'))
                elif k == 'float' and ak != 'float':
                    bad = 'conversion %d is a floating number, its argument a %s' % (i + 1, a.get('t'))
                elif k == 'ptr' and ak not in ('ptr', 'str'):
                    bad = 'conversion %d is a pointer, its argument a %s' % (i + 1, a.get('t'))
                elif k == 'wide':
                    bad = 'conversion %d is a wide string' % (i + 1)
                elif k == 'int' and fl in ('l', 'll', 'j', 'z', 't', 'q') and re.sub(r'\D', '', a.get('t') or '') not in ('64', '') and i >= 4:
                    # a 32 bit value read as 64 bits from the stack has an undefined upper half
                    bad = None
                if bad:
                    break
            ctx.judge(bad is None, R2, tag, f['file'], c['l'], f['f'], '%s: %r' % (bad, fmt))
        # ---- writes
        if name in SIZED and c.get('u') not in ctx.prog.funcs:
            d, s = SIZED[name]
            cap = fm.capacity(f, args[d])
            if cap is None:
                pd, ps = strip(args[d]), strip(args[s])
                par = [p['id'] for p in f['params']]
                ok = pd.get('id') in par and ps.get('id') in par
                ctx.judge(ok, R3, what + ' destination', f['file'], c['l'], f['f'],
                          'the destination of %s is not an array of known size' % name)
            else:
                ctx.judge(fm.size_ok(f, args[s], *cap), R3, what + ' size', f['file'], c['l'], f['f'],
                          'the size given to %s is not shown to be at most the room left of the %d bytes of its array' % (name, cap[0]))
            used = used_as_length(fm, f, c)
            if used:
                sz = fm.const(f, args[s])
                ml = max((maxlen(x, args[pos[1]:]) or 10 ** 9) if pos[1] is not None else 10 ** 9 for x in fmts) if fmts else 10 ** 9
                ctx.judge((sz is not None and ml < sz) or used == 'compared', R3, what + ' length', f['file'], c['l'], f['f'],
                          'the length %s answers is used, but the text may be longer than the array (%s bytes)' % (name, sz))
        if name in UNSIZED and c.get('u') not in ctx.prog.funcs:
            cap = fm.capacity(f, args[0])
            ml = max((maxlen(x, args[pos[1]:]) or 10 ** 9) if pos[1] is not None else 10 ** 9 for x in fmts) if fmts else 10 ** 9
            ctx.judge(cap is not None and cap[1] is None and ml < cap[0], R3, what + ' size', f['file'], c['l'], f['f'],
                      '%s writes up to %s bytes into %s' % (name, ml if ml < 10 ** 9 else 'any number of', cap and cap[0]))
    if n < 200 or not fm.fam:
        raise AnalysisError('only %d formatted calls found, %d functions that forward a format' % (n, len(fm.fam)))
    ctx.notes['format_calls'] = n
    ctx.notes['functions_that_forward_a_format'] = sorted({u for u in fm.fam})
    ctx.paths += n


def used_as_length(fm, f, c):
    """None: the answer is dropped; 'used'; 'compared' when the variable is compared in its function"""
    var = None
    for n in walk(f['body']):
        if n.get('k') == 'expr' and strip(n['e']) is c:
            return None
        if n.get('k') == 'decl':
            for v in n['vars']:
                if v.get('init') is not None and strip(v['init']) is c:
                    var = v['id']
        if n.get('k') == 'asg' and strip(n['c']) is c and strip(n['a']).get('k') == 'var':
            var = strip(n['a'])['id']
    if var is None:
        return 'used'
    uses = 0
    for n in walk(f['body']):
        if n.get('k') == 'bin' and n.get('op') in ('<', '>', '<=', '>='):
            if any(strip(x).get('id') == var for x in (n['a'], n['c'])):
                return 'compared'
        if n.get('k') == 'var' and n.get('id') == var:
            uses += 1
    return 'used' if uses else None
