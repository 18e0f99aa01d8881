"""Path-wise dataflow over the resolved program.

Abstract domain: locations -> value terms (Herbrand terms + linear integer terms),
a set of branch facts (equalities with constants, linear inequalities, truth of
opaque terms) and the ordered effects (calls that were not expanded, stores to
non-local locations).  Helper functions of the repository are expanded at their
call sites, so where a statement lives does not matter.  A loop is analysed from a
state in which everything its body may assign is unknown, which stands for any
iteration; its exits are the zero-iteration exit and the exits of that arbitrary
iteration.  No code is run and no solver is used.
"""
import itertools
import os

import sys
from program import AnalysisError, walk

sys.setrecursionlimit(20000)
TT = {}         # term -> type string
NONNEG = set()
SMALL = set()         # terms taken to stay below 2^31
MAX_STATES = 60000


def ucv(e):
    """constant value of a node (64 bit unsigned constants are dumped as their signed reading)"""
    v = e['cv']
    return v + (1 << 64) if v < 0 and e.get('t') == 'u64' else v


def I(n):
    return ('i', n)


NULL = ('null',)
ZERO = I(0)

INT = {'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'b', 'i128', 'u128'}


def isint(t):
    return t in INT


def rng(t):
    if t == 'b':
        return 0, 1
    if t in INT:
        w = int(t[1:])
        return (0, 2 ** w - 1) if t[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    return None


# ------------------------------------------------------------------ linear terms
def lin(t):
    """term -> (const, {term: coef})"""
    if t[0] == 'i':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(ca + s * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def subst(t, f):
    """rewrite a term bottom-up with f"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'lin':
        r = I(t[1])
        for k, v in t[2]:
            r = add(r, scale(subst(k, f), v))
        return f(r)
    return f(tuple(subst(x, f) if isinstance(x, tuple) else x for x in t))


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, s):
    return any(x == s for x in subterms(t))


class State:
    __slots__ = ('store', 'ver', 'eq', 'ne', 'le', 'facts', 'ev', 'choice', 'aux')

    def __init__(self):
        self.store = {}
        self.ver = {}
        self.eq = {}      # term -> const int / NULL   (term == const)
        self.ne = {}      # term -> frozenset of consts
        self.le = ()      # tuple of linear terms known <= 0
        self.facts = ()   # ordered (atom, bool)
        self.ev = ()
        self.choice = {}
        self.aux = {}

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.ver = dict(self.ver)
        s.eq = dict(self.eq)
        s.ne = dict(self.ne)
        s.le = self.le
        s.facts = self.facts
        s.ev = self.ev
        s.choice = self.choice
        s.aux = dict(self.aux)
        return s

    def key(self):
        return (frozenset(self.store.items()), self.facts, self.ev, frozenset(self.aux.items()))

    # ---------------------------------------------------------------- facts
    def const_of(self, t):
        if t[0] in ('i', 'null'):
            return t
        r = self.eq.get(t)
        if r is not None:
            return r
        if t[0] == 'lin':
            c, d = lin(t)
            known = True
            for k, v in d.items():
                e = self.eq.get(k)
                if e is None or e[0] != 'i':
                    known = False
                    break
                c += v * e[1]
            if known:
                return I(c)
            # x == const recorded for the linear remainder
        return None

    def bounds(self, t):
        """(lo, hi) from type, constants and recorded inequalities (None = unbounded)"""
        k = self.const_of(t)
        if k is not None and k[0] == 'i':
            return k[1], k[1]
        if t[0] == 'lin':
            c, d = lin(t)
            lo = hi = c
            for term, v in d.items():
                b = self._abounds(term)
                a, z = (b[0], b[1]) if v > 0 else (b[1], b[0])
                lo = None if lo is None or a is None else lo + v * a
                hi = None if hi is None or z is None else hi + v * z
            # direct single facts on the whole
            for l in self.le:
                df = sub(l, t)     # l <= 0 ; l = t + df -> t <= -df
                if df[0] == 'i':
                    hi = -df[1] if hi is None else min(hi, -df[1])
                df = add(l, t)     # l = df - t -> t >= df
                if df[0] == 'i':
                    lo = df[1] if lo is None else max(lo, df[1])
            return lo, hi
        return self._abounds(t)

    def _abounds(self, t):
        k = self.const_of(t)
        if k is not None and k[0] == 'i':
            return k[1], k[1]
        lo = hi = None
        ty = TT.get(t)
        r = rng(ty) if ty else None
        if r and ty not in ('i64', 'u64', 'i32', 'i128', 'u128'):
            lo, hi = r
        elif r and ty in ('u64', 'u32'):
            lo = 0
        if t in NONNEG:
            lo = 0 if lo is None else max(lo, 0)
        if t in SMALL:
            hi = 2 ** 31 - 1 if hi is None else min(hi, 2 ** 31 - 1)
        if t[0] == 'op' and t[1] == '&' and len(t) == 4:
            for x in (t[2], t[3]):
                if x[0] == 'i' and x[1] >= 0:
                    lo = 0
                    hi = x[1] if hi is None else min(hi, x[1])
        if t[0] == 'op' and t[1] == '>>' and t[3][0] == 'i':
            b = self.bounds(t[2])
            if b[0] is not None and b[0] >= 0:
                lo = 0
                if b[1] is not None:
                    h = b[1] >> t[3][1]
                    hi = h if hi is None else min(hi, h)
        for l in self.le:
            c, d = lin(l)
            if len(d) == 1 and t in d:
                v = d[t]
                if v == 1:
                    hi = -c if hi is None else min(hi, -c)
                elif v == -1:
                    lo = c if lo is None else max(lo, c)
        return lo, hi

    def entails_le0(self, t, depth=2):
        """is linear term t <= 0 on this path?"""
        lo, hi = self.bounds(t)
        if hi is not None and hi <= 0:
            return True
        if depth > 0:
            c, d = lin(t)
            for l in self.le:
                _, dl = lin(l)
                if any(k in d and (d[k] > 0) == (dl[k] > 0) for k in dl):
                    if self.entails_le0(sub(t, l), depth - 1):
                        return True
                    for m in {d[k] // dl[k] for k in dl if k in d and (d[k] > 0) == (dl[k] > 0) and d[k] % dl[k] == 0} - {1}:
                        if self.entails_le0(sub(t, scale(l, m)), depth - 1):
                            return True
            for k in list(d):
                e = self.eq.get(k)
            for lt, e in self.eq.items():
                if lt[0] == 'lin' and e[0] == 'i':
                    _, dl = lin(lt)
                    if any(k in d for k in dl):
                        z = sub(lt, e)
                        if self.entails_le0(sub(t, z), depth - 1) or self.entails_le0(add(t, z), depth - 1):
                            return True
        return False

    def feasible_le(self, t):
        """may t <= 0 hold? (False only when contradicted)"""
        lo, _ = self.bounds(t)
        if lo is not None and lo > 0:
            return False
        for l in self.le:
            s = add(l, t)
            if s[0] == 'i' and s[1] > 0:
                return False
            lo, _ = self.bounds(s)
            if lo is not None and lo > 0:
                return False
        return True

    def truth(self, atom):
        """atom -> True/False/None"""
        if atom is True or atom is False:
            return atom
        k = atom[0]
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            ca, cb = self.const_of(a), self.const_of(b)
            if ca is not None and cb is not None:
                return ca == cb
            if cb is not None:
                n = self.ne.get(a)
                if n and cb in n:
                    return False
                if cb[0] == 'i':
                    lo, hi = self.bounds(a)
                    if (lo is not None and lo > cb[1]) or (hi is not None and hi < cb[1]):
                        return False
                if cb == NULL and nonnull_term(a):
                    return False
            if isint(TT.get(a, '')) or a[0] in ('i', 'lin') or b[0] == 'i':
                d = sub(a, b)
                if d[0] == 'i':
                    return d[1] == 0
                if a[0] == 'lin' or b[0] == 'lin' or b[0] != 'i':
                    lo, hi = self.bounds(d)
                    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                        return False
                    if self.entails_le0(add(d, I(1))) or self.entails_le0(sub(I(1), d)):
                        return False
            f = self._f(atom)
            return f
        if k == 'le0':
            t = atom[1]
            lo, hi = self.bounds(t)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            if self.entails_le0(t):
                return True
            if not self.feasible_le(t):
                return False
            return None
        return self._f(atom)

    def _f(self, atom):
        for a, b in self.facts:
            if a == atom:
                return b
        return None

    def assume(self, atom, val):
        """returns a new state or None when contradictory"""
        if atom is True or atom is False:
            return self if atom == val else None
        v = self.truth(atom)
        if v is not None:
            return self if v == val else None
        s = self.copy()
        s.facts = s.facts + ((atom, val),)
        k = atom[0]
        if k == 'eq':
            a, b = atom[1], atom[2]
            if b[0] in ('i', 'null'):
                if val:
                    s.eq[a] = b
                    # x <= 0 style facts about a collapse through const_of
                    for l in s.le:
                        lo, _ = s.bounds(l)
                        if lo is not None and lo > 0:
                            return None
                else:
                    s.ne[a] = s.ne.get(a, frozenset()) | {b}
                    if b[0] == 'i':
                        lo, hi = s.bounds(a)
                        if lo == b[1]:
                            s.le = s.le + (sub(I(b[1] + 1), a),)
                        if hi == b[1]:
                            s.le = s.le + (sub(a, I(b[1] - 1)),)
                        lo, hi = s.bounds(a)
                        if lo is not None and lo == hi and lo is not None:
                            s.eq[a] = I(lo)
            elif val and (isint(TT.get(a, '')) or a[0] == 'lin' or isint(TT.get(b, ''))):
                d = sub(a, b)
                s.le = s.le + (d, scale(d, -1))
        elif k == 'le0':
            t = atom[1]
            n = t if val else sub(I(1), t)
            s.le = s.le + (n,)
            lo, hi = s.bounds(t if t[0] != 'lin' else t)
            c, d = lin(n)
            if len(d) == 1:
                x = next(iter(d))
                # skip over values excluded before
                for _ in range(4):
                    lo, hi = s._abounds(x)
                    ex = s.ne.get(x, ())
                    if lo is not None and I(lo) in ex:
                        s.le = s.le + (sub(I(lo + 1), x),)
                        continue
                    if hi is not None and I(hi) in ex:
                        s.le = s.le + (sub(x, I(hi - 1)),)
                        continue
                    break
                lo, hi = s._abounds(x)
                if lo is not None and hi is not None:
                    if lo > hi:
                        return None
                    if lo == hi:
                        s.eq[x] = I(lo)
        return s


def nonnull_term(t):
    return t[0] in ('new', 'ad', 's', 'this', 'fnref', 'lam')


class Frame:
    __slots__ = ('fid', 'fn', 'this', 'parent', 'depth', 'cls')

    def __init__(self, fid, fn, this, parent):
        self.fid, self.fn, self.this, self.parent = fid, fn, this, parent
        self.depth = parent.depth + 1 if parent else 0
        self.cls = fn.get('cls')

    def chain(self):
        f = self
        while f:
            yield f.fn['u']
            f = f.parent


class Out:
    """result of executing a statement: kind -> list of states"""
    __slots__ = ('n', 'brk', 'cont', 'ret', 'goto')

    def __init__(self):
        self.n, self.brk, self.cont, self.ret, self.goto = [], [], [], [], {}

    def absorb(self, o, normal=True):
        if normal:
            self.n += o.n
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        for k, v in o.goto.items():
            self.goto.setdefault(k, []).extend(v)


SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<', 'std::__shared_ptr<')
PTR_LIKE = {'get', 'operator->', 'operator*', 'operator bool', 'lock'}
LOGGERS = {'sps::ILog::printf', 'sps::ConsoleLog::printf', 'printf', 'fprintf', 'sps::get_context_id', 'puts', 'putchar'}
PURE_C = {'strlen', 'strcmp', 'strncmp', 'memcmp', 'strchr', 'strstr', 'strrchr', 'atoi', 'abs',
          'htons', 'htonl', 'ntohs', 'ntohl', '__builtin_bswap16', '__builtin_bswap32', '__bswap_16', '__bswap_32'}
CONT = ('std::list<', 'std::vector<', 'std::map<', 'std::set<', 'std::deque<', 'std::unordered_map<',
        'std::basic_string<', 'std::__cxx11::basic_string<', 'std::__cxx11::list<', 'std::queue<', 'std::pair<',
        'std::multimap<', 'std::unordered_set<', 'std::function<')


def is_smart(t):
    return t.startswith('R:') and t[2:].startswith(SMART)


def is_std(t):
    return t.startswith('R:std::')


def unref(t):
    if t.startswith('c') and t[1:3] in ('r:', 'p:'):
        t = t[1:]
    return t[2:] if t.startswith('r:') else t


class Exec:
    def __init__(self, prog, inline=None, max_depth=8, ctor_inline=True, model=None, opaque=(), dispatch=None,
                 keep_log=False, max_states=MAX_STATES):
        self.p = prog
        self._inline = inline
        self.max_depth = max_depth
        self.ctor_inline = ctor_inline
        self.model = model or {}
        self.opaque = set(opaque)
        self.dispatch = dispatch
        self.keep_log = keep_log
        self.max_states = max_states
        self.nfid = 0
        self.cnt = itertools.count(1)
        self.visited = set()       # usr of functions whose bodies were analysed
        self.calls_seen = 0
        self._mod = {}
        self._assigned = {}
        self.iter_ends = []        # (loop node, state) at the end of an arbitrary iteration
        self.on_load = None
        self.on_deref = None
        self.notes = set()
        self.merge = None          # optional join of states after a statement
        self.unaliased = False     # reference parameters of the entry function name nothing the function writes otherwise
        self.yields = None         # predicate on call events: forget shared state there

    # ================================================================ entry
    def run(self, fn, args=None, this=None, state=None):
        """all abstract paths of fn: list of (state, return value)"""
        st = state or State()
        fr = Frame(0, fn, this if this is not None else ('this',), None)
        self.nfid = max(self.nfid, 1)
        self.visited.add(fn['u'])
        for i, p in enumerate(fn['params']):
            loc = ('L', 0, p['id'])
            if args and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = ('p', p['n'] or 'arg%d' % i)
                TT[v] = unref(p['t'])
            if p['t'].startswith('r:') and not is_std_value_ref(p['t']):
                # reference parameter: variable is an alias of an external location
                tgt = ('D', v) if v[0] != 'ad' else v[1]
                if args and i < len(args) and args[i] is not None:
                    st.store[loc] = ('ref', tgt)
                else:
                    st.store[loc] = ('ref', ('X', v))
            elif p['t'].startswith('r:'):
                st.store[loc] = ('ref', ('X', v))
            else:
                st.store[loc] = v
        sts = [st]
        if fn.get('isctor'):
            sts = self.ctor_inits(fn, fr, sts)
        o = self.stmt(fn['body'], fr, sts)
        res = []
        for s in o.n:
            res.append((s, s.aux.pop('_rv', ('void',)) if '_rv' in s.aux else ('void',)))
        for s in o.ret:
            s = s.copy()
            rv = s.aux.pop('_rv', ('void',))
            res.append((s, rv))
        return dedupe_rv(res)

    # ================================================================ statements
    def cap(self, sts, where=''):
        if self.merge is not None and len(sts) > 6:
            sts = self.merge(self, sts)
        if len(sts) > 40:
            seen, out = set(), []
            for s in sts:
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    out.append(s)
            sts = out
        if len(sts) > self.max_states:
            raise AnalysisError('too many paths (%d) %s' % (len(sts), where))
        return sts

    def stmt(self, n, fr, sts):
        o = Out()
        if n is None or not sts:
            o.n = sts
            return o
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise AnalysisError('statement kind %s at %s:%s' % (n.get('cls', k), fr.fn['file'], n.get('l')))
        m(n, fr, sts, o)
        o.n = self.cap(o.n, fr.fn['f'])
        return o

    def s_null(self, n, fr, sts, o):
        o.n = sts

    def s_expr(self, n, fr, sts, o):
        for s in sts:
            o.n += [x for x, _ in self.ev(n['e'], fr, s) if not x.aux.get('_dead')]

    def s_seq(self, n, fr, sts, o):
        body = n['s']
        labels = {x['lab']: i for i, x in enumerate(body) if x and x['k'] == 'label'}
        pending = {}
        cur = sts
        dts = []
        i = 0
        while i < len(body):
            st = body[i]
            if st and st['k'] == 'label' and st['lab'] in pending:
                cur = cur + pending.pop(st['lab'])
            if cur:
                r = self.stmt(st, fr, cur)
                cur = r.n
                o.absorb(r, normal=False)
                for lab in list(o.goto):
                    if lab in labels and labels[lab] > i:
                        pending.setdefault(lab, []).extend(o.goto.pop(lab))
                if st and st['k'] == 'decl':
                    for v in st['vars']:
                        if v['t'].startswith('R:sps::') or (v['t'].startswith('R:') and not v['t'].startswith('R:std::')):
                            if self.p.dtor(v['t'][2:]) and not v.get('ref'):
                                dts.append(v)
            i += 1
        o.n = cur
        if dts:
            self.run_dtors(dts, fr, o)

    def run_dtors(self, dts, fr, o):
        def go(sts, ret=False):
            for v in reversed(dts):
                d = self.p.dtor(v['t'][2:])
                nxt = []
                for s in sts:
                    loc = ('L', fr.fid, v['id'])
                    if s.aux.get(('live', loc)) is None:
                        nxt.append(s)
                        continue
                    rv = s.aux.get('_rv')
                    for s2, _ in self.call_fn(d, fr, s, ('ad', loc), [], None):
                        s2 = s2.copy()
                        s2.aux.pop(('live', loc), None)
                        if rv is not None:
                            s2.aux['_rv'] = rv
                        nxt.append(s2)
                sts = nxt
            return sts
        o.n = go(o.n)
        o.brk = go(o.brk)
        o.cont = go(o.cont)
        o.ret = go(o.ret)
        for k in o.goto:
            o.goto[k] = go(o.goto[k])

    def s_decl(self, n, fr, sts, o):
        cur = sts
        for v in n['vars']:
            cur = self.declare(v, fr, cur)
        o.n = cur

    def declare(self, v, fr, sts):
        loc = ('L', fr.fid, v['id'])
        out = []
        isobj = v['t'].startswith('R:') and not is_std(v['t'])
        for s in sts:
            if v.get('static'):
                s = s.copy()
                g = '%s<%s>' % (v['g'], v['t'])
                t = ('ld', ('G', g), 0)
                TT[t] = v['t']
                s.store[loc] = ('ref', ('G', g))
                out.append(s)
                continue
            if v.get('ref'):
                for s2, l in self.lv(v['init'], fr, s):
                    s2 = s2.copy()
                    s2.store[loc] = ('ref', l)
                    out.append(s2)
                continue
            if isobj:
                s = s.copy()
                self.clear_obj(s, loc)
                s.aux[('live', loc)] = next(self.cnt)
                s.store[('born', loc)] = ('b', next(self.cnt))
                if v.get('init'):
                    for s2 in self.init_obj(v['init'], loc, fr, s):
                        out.append(s2)
                else:
                    out.append(s)
                continue
            if v.get('init') is not None:
                for s2, val in self.ev(v['init'], fr, s):
                    s2 = s2.copy()
                    self.clear_obj(s2, loc)
                    if val[0] == 'ilv':
                        for i, x in enumerate(val[1]):
                            s2.store[('I', loc, I(i))] = x
                    elif v['t'][0] == 'a' and val[0] == 's':
                        pass
                    else:
                        s2.store[loc] = self.conv(val, v['t'], s2)
                    out.append(s2)
            else:
                s = s.copy()
                self.clear_obj(s, loc)
                if not (v['t'][0] == 'a' and ':' in v['t']):
                    if is_std(v['t']):
                        s.store[loc] = ('empty', v['t']) if not is_smart(v['t']) else NULL
                    else:
                        u = ('undef', v['n'], next(self.cnt))
                        TT[u] = v['t']
                        s.store[loc] = u
                out.append(s)
        return out

    def clear_obj(self, s, loc):
        for k in [k for k in s.store if k != loc and under(k, loc)]:
            del s.store[k]

    def init_obj(self, e, loc, fr, s):
        """initialise object at loc (repo class / C struct) from expression e"""
        if e['k'] == 'ctor':
            out = []
            for s2, args in self.evargs(e, fr, s):
                out += self.construct(e, e.get('cls') or e['t'][2:], loc, args, fr, s2)
            return out
        if e['k'] == 'ilist':
            r = self.p.records.get(e['t'][2:])
            sts = [s]
            for i, a in enumerate(e['args']):
                nxt = []
                for s1 in sts:
                    q = r['fields'][i]['q'] if r and i < len(r['fields']) else 'f%d' % i
                    l2 = ('F', loc, q)
                    if a['t'].startswith('R:') and not is_std(a['t']):
                        nxt += self.init_obj(a, l2, fr, s1)
                    else:
                        for s2, v in self.ev(a, fr, s1):
                            s2 = s2.copy()
                            s2.store[l2] = v
                            nxt.append(s2)
                sts = nxt
            return sts
        out = []
        for s2, v in self.ev(e, fr, s):
            s2 = s2.copy()
            self.copy_obj(s2, v, loc)
            out.append(s2)
        return out

    def copy_obj(self, s, v, loc):
        self.clear_obj(s, loc)
        if v[0] == 'O':
            src = v[1]
            for k in list(s.store):
                if under(k, src) and k != src:
                    s.store[rebase(k, src, loc)] = s.store[k]
            s.store[('base', loc)] = ('O', src)
        else:
            s.store[('base', loc)] = v

    def construct(self, e, cls, loc, args, fr, s):
        s = s.copy()
        f = self.p.funcs.get(e.get('u'))
        ev = ('ctor', cls, args, e['l'], fr.fn['file'], fr.fn['f'], loc)
        s.ev = s.ev + (ev,)
        if f and self.can_inline(f, fr):
            return [x for x, _ in self.call_fn(f, fr, s, ('ad', loc), args, e)]
        return [s]

    def s_if(self, n, fr, sts, o):
        if n.get('init'):
            r = self.stmt(n['init'], fr, sts)
            sts = r.n
        if n.get('cvar'):
            r = self.stmt(n['cvar'], fr, sts)
            sts = r.n
        T, F = self.branch(n['c'], fr, sts)
        r = self.stmt(n['x'], fr, T)
        o.absorb(r)
        if n.get('y'):
            r = self.stmt(n['y'], fr, F)
            o.absorb(r)
        else:
            o.n = o.n + F

    def branch(self, c, fr, sts):
        T, F = [], []
        for s in sts:
            for s2, b in self.cond(c, fr, s):
                (T if b else F).append(s2)
        return self.cap(T), self.cap(F)

    # ---- loops
    def loop(self, n, fr, sts, o, cond, body, inc, do=False, pre=None):
        mods = self.assigned([body, cond, inc], fr)
        exits = []
        self_iter = []
        lid = (fr.fn['f'], n['l'])
        first = []
        if not do:
            T, F = self.branch(cond, fr, sts) if cond else (sts, [])
            exits += F       # zero iterations
            base = sts
        else:
            base = sts
        inv = {}
        for attempt in (0, 1):
            mark = len(self.iter_ends)
            heads = []
            for s in base:
                h = self.havoc(s, mods, fr, n)
                for k, c in inv.items():
                    h.store[k] = c
                heads.append(h)
            marked = []
            for pre, s in zip(base, heads):
                s = s.copy()
                s.ev = s.ev + (('loop', lid),)
                for k, v in pre.store.items():
                    if k[0] != 'L' or k[1] != fr.fid:
                        continue
                    hv = s.store.get(k, v)
                    # iterator loop: same 'each' event as a range-for
                    if v[0] == 'call' and v[1] == 'begin' and hv[0] == 'hv':
                        s.ev = s.ev + (('each', lid, v[2], ('it', hv), k),)
                    elif hv[0] == 'hv' and hv != v and (self.local_type(fr, k[2]) or '').startswith(
                            ('R:std::list', 'R:std::__cxx11::list', 'R:std::deque', 'R:std::queue')):
                        s.ev = s.ev + (('drain', lid, v, hv, k),)
                marked.append(s)
            if not do and cond:
                marked, _ = self.branch(cond, fr, marked)
            r = self.stmt(body, fr, marked)
            ends = r.n + r.cont
            if inc:
                e2 = []
                for s in ends:
                    e2 += [x for x, _ in self.ev(inc, fr, s)]
                ends = e2
            if cond:
                T, F = self.branch(cond, fr, ends)
            else:
                T, F = ends, []
            if attempt == 1 or not T or not base:
                break
            # constants that hold before the loop and at every way back to its head hold at the head
            tested = self.tested_in(cond, body)
            for k, v in heads[0].store.items():
                if k[0] == 'L' and k[1] == fr.fid and v[0] == 'hv' and k[2] in tested:
                    def known(x, c):
                        w = x.store.get(k)
                        return w is not None and (w == c or x.truth(eqatom(w, c)) is True)
                    c0 = base[0].store.get(k)
                    for c in ([c0] if c0 is not None and c0[0] in ('i', 'null') else []) + [ZERO]:
                        if all(known(x, c) for x in base) and all(known(x, c) for x in T):
                            inv[k] = c
                            break
            if not inv:
                break
            del self.iter_ends[mark:]
        for s in T:
            self.iter_ends.append((n, fr.fn, s, True))
        for s in F:
            self.iter_ends.append((n, fr.fn, s, False))
        for i, s in enumerate(F + r.brk):
            s = s.copy()
            if i >= len(F):
                s.ev = s.ev + (('brkloop', lid),)
            s.ev = s.ev + (('endloop', lid),)
            exits.append(s)
        for s in r.ret:
            s.ev = s.ev + (('brkloop', lid), ('endloop', lid))
        if len(base) == 1 and not r.ret and not r.goto and not r.brk:
            a = self.append_all(base[0], marked, F, lid)
            if a is not None:
                exits = [a]
        o.ret += r.ret
        for k, v in r.goto.items():
            o.goto.setdefault(k, []).extend(v)
        o.n += exits

    def tested_in(self, cond, body):
        """variables read in the condition of this loop or of a loop nested in it"""
        ids = {x.get('id') for x in walk(cond) if x.get('k') == 'var'} if cond else set()
        for x in walk(body):
            if x.get('k') in ('for', 'while', 'do') and x.get('c'):
                ids |= {y.get('id') for y in walk(x['c']) if y.get('k') == 'var'}
        return ids

    def append_all(self, pre, heads, ends, lid):
        """summary of a loop whose only effect is to append every element of a container to another one"""
        if len(heads) != 1 or not ends:
            return None
        h = heads[0]
        ea = [e for e in h.ev if e[0] == 'each' and e[1] == lid]
        if len(ea) != 1:
            return None
        rv, el = ea[0][2], ea[0][3]
        tgt = None
        for x in ends:
            ev = [e for e in x.ev[len(h.ev):] if e[0] not in ('q', 'enter', 'leave')]
            if len(ev) != 1 or ev[0][0] != 'mut' or ev[0][1] not in ('push_back', 'emplace_back') or ev[0][3] != (el,):
                return None
            if tgt is not None and tgt != ev[0][2]:
                return None
            tgt = ev[0][2]
            if x.store.get(tgt) != ('M', ev[0][1], ev[0][7], ev[0][3]):
                return None
            # nothing else may differ from the state before the loop, the iterator and loop variables aside
            for k, v in x.store.items():
                if k == tgt or k[0] == 'L' or k[0] in ('born', 'base'):
                    continue
                if pre.store.get(k) != v:
                    return None
        if rv == pre.store.get(tgt):
            return None
        s = pre.copy()
        old = self.load(pre, tgt, '?')
        ops = (('call', 'end', old), ('call', 'begin', rv), ('call', 'end', rv))
        s.store[tgt] = ('M', 'insert', old, ops)
        e0 = [e for e in ends[0].ev[len(h.ev):] if e[0] == 'mut'][0]
        s.ev = s.ev + (('mut', 'insert', tgt, ops, e0[4], e0[5], e0[6], old),)
        return s

    def s_while(self, n, fr, sts, o):
        if n.get('cvar'):
            # while (T x = e): treat as for(;;){ T x = e; if(!x) break; ...}
            raise AnalysisError('while with declaration')
        self.loop(n, fr, sts, o, n['c'], n['b'], None)

    def s_do(self, n, fr, sts, o):
        self.loop(n, fr, sts, o, n['c'], n['b'], None, do=True)

    def s_for(self, n, fr, sts, o):
        if n.get('init'):
            sts = self.stmt(n['init'], fr, sts).n
        self.loop(n, fr, sts, o, n.get('c'), n['b'], n.get('inc'))

    def s_rfor(self, n, fr, sts, o):
        mods = self.assigned([n['b']], fr)
        exits = []
        for s in sts:
            for s2, rl in self.lv(n['range'], fr, s):
                rv = self.load(s2, rl, n['range']['t'])
                if rv[0] == 'ilv' or (rv[0] == 'mk' and 'initializer_list' in rv[1][:28] and rv[2] and rv[2][0][0] == 'ilv'):
                    vals = rv[1] if rv[0] == 'ilv' else rv[2][0][1]
                    cur = [s2]
                    for val in vals:
                        nx = []
                        for h in cur:
                            h = h.copy()
                            loc = ('L', fr.fid, n['var']['id'])
                            if n['var'].get('ref'):
                                h.store[loc] = ('ref', ('X', val))
                            else:
                                h.store[loc] = val
                            r = self.stmt(n['b'], fr, [h])
                            nx += r.n + r.cont
                            exits += r.brk
                            o.ret += r.ret
                            for k, v in r.goto.items():
                                o.goto.setdefault(k, []).extend(v)
                        cur = self.cap(nx)
                    exits += cur
                    continue
                szt = ('call', 'size', rv)
                TT.setdefault(szt, 'u64')
                NONNEG.add(szt)
                isempty = ('eq', szt, ZERO)
                a = s2.assume(isempty, True)
                if a is not None:
                    a = a.copy()
                    a.ev = a.ev + (('rfor0', (fr.fn['f'], n['l']), rv),)
                    exits.append(a)
                b = s2.assume(isempty, False)
                if b is None:
                    continue
                h = self.havoc(b, mods, fr, n).copy()
                lid = (fr.fn['f'], n['l'])
                el = ('elem', rv, next(self.cnt))
                TT[el] = unref(n['var']['t'])
                h.ev = h.ev + (('loop', lid), ('each', lid, rv, el))
                loc = ('L', fr.fid, n['var']['id'])
                if n['var'].get('ref'):
                    h.store[loc] = ('ref', ('X', el))
                else:
                    if n['var']['t'].startswith('R:') and not is_std(n['var']['t']):
                        self.copy_obj(h, el, loc)
                    else:
                        h.store[loc] = el
                r = self.stmt(n['b'], fr, [h])
                if not r.ret and not r.goto and not r.brk:
                    sm = self.append_all(s2, [h], r.n + r.cont, lid)
                    if sm is not None:
                        if a is not None:
                            exits.remove(a)
                        for x in r.n + r.cont:
                            self.iter_ends.append((n, fr.fn, x, True))
                        exits.append(sm)
                        continue
                for x in r.n + r.cont:
                    self.iter_ends.append((n, fr.fn, x, True))
                    x = x.copy()
                    x.ev = x.ev + (('endloop', lid),)
                    exits.append(x)
                for x in r.brk:
                    x = x.copy()
                    x.ev = x.ev + (('brkloop', lid), ('endloop', lid))
                    exits.append(x)
                o.ret += r.ret
                for k, v in r.goto.items():
                    o.goto.setdefault(k, []).extend(v)
        o.n += exits

    def s_switch(self, n, fr, sts, o):
        if n.get('init'):
            sts = self.stmt(n['init'], fr, sts).n
        if n.get('cvar'):
            sts = self.stmt(n['cvar'], fr, sts).n
        body = n['b']['s'] if n['b']['k'] == 'seq' else [n['b']]
        # flatten case labels
        items = []   # (labels, stmt)
        for st in body:
            labs = []
            while st and st['k'] in ('case', 'default'):
                labs.append(st)
                st = st['b']
            items.append((labs, st))
        entry = {}
        default = None
        cases = []
        for i, (labs, st) in enumerate(items):
            for lb in labs:
                if lb['k'] == 'default':
                    default = i
                else:
                    cases.append((lb, i))
        rest = []
        for s in sts:
            for s2, v in self.ev(n['c'], fr, s):
                cur = [s2]
                for lb, i in cases:
                    cv = lb['v'].get('cv', lb['v'].get('v'))
                    if cv is None:
                        raise AnalysisError('case label')
                    nxt = []
                    for x in cur:
                        if 'v2' in lb and lb['v2'] is not None:
                            hi = lb['v2'].get('cv', lb['v2'].get('v'))
                            a = x.assume(('le0', sub(I(cv), v)), True)
                            if a is not None:
                                a = a.assume(('le0', sub(v, I(hi))), True)
                            if a is not None:
                                entry.setdefault(i, []).append(a)
                            nxt.append(x)
                            continue
                        at = eqatom(v, I(cv))
                        a = x.assume(at, True)
                        if a is not None:
                            entry.setdefault(i, []).append(a)
                        b = x.assume(at, False)
                        if b is not None:
                            nxt.append(b)
                    cur = nxt
                rest += cur
        if default is not None:
            entry.setdefault(default, []).extend(rest)
        else:
            o.n += rest
        cur = []
        for i, (labs, st) in enumerate(items):
            cur = cur + entry.get(i, [])
            if not cur:
                continue
            r = self.stmt(st, fr, cur)
            cur = r.n
            o.n += r.brk
            o.cont += r.cont
            o.ret += r.ret
            for k, v in r.goto.items():
                o.goto.setdefault(k, []).extend(v)
        o.n += cur

    def s_break(self, n, fr, sts, o):
        o.brk = sts

    def s_continue(self, n, fr, sts, o):
        o.cont = sts

    def s_goto(self, n, fr, sts, o):
        o.goto[n['lab']] = sts

    def s_label(self, n, fr, sts, o):
        o.absorb(self.stmt(n['b'], fr, sts))

    def s_case(self, n, fr, sts, o):
        o.absorb(self.stmt(n['b'], fr, sts))

    s_default = s_case

    def s_try(self, n, fr, sts, o):
        o.absorb(self.stmt(n['b'], fr, sts))

    def s_return(self, n, fr, sts, o):
        for s in sts:
            if n.get('e') is None:
                s = s.copy()
                s.aux['_rv'] = ('void',)
                s.aux['_rl'] = n['l']
                o.ret.append(s)
                continue
            if fr.fn.get('ret', '').startswith('r:'):
                for s2, l in self.lv(n['e'], fr, s):
                    s2 = s2.copy()
                    s2.aux['_rv'] = ('ref', l)
                    s2.aux['_rl'] = n['l']
                    o.ret.append(s2)
                continue
            for s2, v in self.ev(n['e'], fr, s):
                if s2.aux.get('_dead'):
                    continue
                s2 = s2.copy()
                rt = fr.fn.get('ret', '?')
                s2.aux['_rv'] = self.conv(v, rt, s2)
                s2.aux['_rl'] = n['l']
                o.ret.append(s2)

    # ================================================================ havoc
    def assigned(self, nodes, fr):
        """locals, field names and 'containers' the nodes may assign (expanding repo calls)"""
        key = (tuple(id(x) for x in nodes), fr.fid)
        if key in self._assigned:
            return self._assigned[key]
        loc, fld = set(), set()
        for n in nodes:
            self._asg(n, loc, fld, set())
        r = (frozenset(loc), frozenset(fld))
        self._assigned[key] = r
        return r

    def _target(self, e, loc, fld):
        while e:
            k = e['k']
            if k == 'var':
                if 'g' in e:
                    fld.add(e['g'])
                elif e.get('id') is not None:
                    loc.add(e['id'])
                return
            if k == 'mem':
                fld.add(e['q'])
                # a by-value struct member of a local also changes
                return
            if k == 'idx':
                fld.add('[]')
                e = e['b']
                continue
            if k == 'un' and e['op'] == '*':
                fld.add('*')
                return
            if k == 'cond':
                self._target(e.get('x'), loc, fld)
                e = e['y']
                continue
            if k in ('cast', 'ptrbool', 'tovoid'):
                e = e['e']
                continue
            if k == 'call':
                fld.add('[]')
                if e.get('op') in ('->', '*', '[]') and e.get('args'):
                    if e.get('op') == '[]':
                        e = e['args'][0]
                        continue
                    return
                return
            return

    def _asg(self, n, loc, fld, seen):
        for x in walk(n):
            k = x.get('k')
            if k == 'asg':
                self._target(x['a'], loc, fld)
            elif k == 'un' and x['op'] in ('++', '--'):
                self._target(x['e'], loc, fld)
            elif k == 'decl':
                for v in x['vars']:
                    loc.add(v['id'])
            elif k == 'rfor':
                loc.add(x['var']['id'])
            elif k == 'call' or k == 'ctor':
                f = x.get('f', '')
                if f in LOGGERS:
                    continue
                # out params
                args = x.get('args', [])
                pt = x.get('pt', [])
                off = 1 if x.get('memop') else 0
                if x.get('memop') and not x.get('const'):
                    if x.get('op') not in ('->', '*', '()', '==', '!=', 'bool', '<'):
                        self._target(args[0], loc, fld)
                for i, a in enumerate(args[off:]):
                    t = pt[i] if i < len(pt) else ''
                    if t.startswith('r:'):
                        self._target(a, loc, fld)
                    elif t.startswith('p:') and a['k'] == 'un' and a['op'] == '&':
                        self._target(a['e'], loc, fld)
                    elif t.startswith('p:'):
                        fld.add('[]')
                if x.get('obj') and not x.get('const') and self._std_mut(x):
                    self._target(x['obj'], loc, fld)
                u = x.get('u')
                for g in self.targets(x):
                    if g['u'] not in seen:
                        seen.add(g['u'])
                        l2 = set()
                        for i in g.get('inits', []):
                            if 'q' in i:
                                fld.add(i['q'])
                            if i.get('e'):
                                self._asg(i['e'], l2, fld, seen)
                        self._asg(g['body'], l2, fld, seen)

    def _std_mut(self, x):
        cls = x.get('cls', '')
        return cls.startswith('std::') and x.get('f', '').rsplit('::', 1)[-1] not in self.CONST_METHODS

    def targets(self, x):
        u = x.get('u')
        if u is None:
            return []
        if x.get('virt') and not x.get('nonvirt'):
            return self.p.impls(u)
        f = self.p.funcs.get(u)
        return [f] if f else []

    def havoc(self, s, mods, fr, n):
        loc, fld = mods
        s = s.copy()
        tag = next(self.cnt)
        for k in list(s.store):
            v = s.store[k]
            b = k
            if k[0] in ('born', 'base'):
                continue
            if k[0] == 'L':
                if k[1] == fr.fid and k[2] in loc:
                    if v[0] == 'ref':
                        continue
                    nv = ('hv', k[2], tag)
                    TT[nv] = TT.get(v, '?') if v[0] != 'i' else 'i64'
                    ty = self.local_type(fr, k[2])
                    if ty:
                        TT[nv] = ty
                    s.store[k] = nv
                continue
            if k[0] == 'F' and k[2] in fld:
                del s.store[k]
                continue
            root = rootof(k)
            if k[0] == 'I' and ('[]' in fld or (root[0] == 'L' and root[2] in loc)):
                del s.store[k]
                continue
            if self.unaliased and k[0] in ('D', 'X') and k[1][0] == 'p':
                pass
            elif k[0] in ('D', 'X') and ('*' in fld or '[]' in fld):
                del s.store[k]
                continue
            if k[0] in ('D', 'X') and k[1][0] != 'L':
                # external location aliased by a reference variable assigned in the loop
                if any(s.store.get(('L', fr.fid, l)) == ('ref', k) for l in loc):
                    del s.store[k]
                continue
            if k[0] == 'G' and k[1] in fld:
                del s.store[k]
        for f in fld:
            s.ver[f] = tag
        # references to external values assigned in the loop
        for l in loc:
            v = s.store.get(('L', fr.fid, l))
            if v and v[0] == 'ref':
                tgt = v[1]
                s.ver[tgt] = tag
                if tgt in s.store:
                    if tgt[0] == 'L':
                        nv = ('hv', tgt[2], tag)
                        TT[nv] = TT.get(s.store[tgt], '?')
                        s.store[tgt] = nv
                    else:
                        del s.store[tgt]
        s.ver['[]'] = tag
        return s

    def local_type(self, fr, vid):
        m = getattr(self, '_lt', None)
        if m is None:
            m = self._lt = {}
        key = (fr.fn['u'])
        if key not in m:
            d = {}
            for p in fr.fn['params']:
                d[p['id']] = unref(p['t'])
            for x in walk(fr.fn['body']):
                if x.get('k') == 'decl':
                    for v in x['vars']:
                        d[v['id']] = v['t']
            m[key] = d
        return m[key].get(vid)

    # ================================================================ locations
    def lv(self, e, fr, s):
        """location of an lvalue expression: list of (state, loc)"""
        k = e['k']
        if k == 'var':
            if 'g' in e and 'id' in e and e.get('sl'):
                return [(s, ('G', '%s<%s>' % (e['g'], unref(e['t']))))]
            if 'g' in e:
                return [(s, ('G', e['g']))]
            loc = self.varloc(e['id'], fr, s)
            v = s.store.get(loc)
            if v is not None and v[0] == 'ref':
                return [(s, v[1])]
            return [(s, loc)]
        if k == 'mem':
            out = []
            if e['arrow']:
                for s2, b in self.ev(e['b'], fr, s):
                    self.deref(s2, b, e, fr)
                    out.append((s2, ('F', deref(b), e['q'])))
            else:
                for s2, l in self.lv(e['b'], fr, s):
                    out.append((s2, ('F', l, e['q'])))
            return out
        if k == 'idx':
            out = []
            for s2, b in self.ev(e['b'], fr, s):
                for s3, i in self.ev(e['i'], fr, s2):
                    out.append((s3, idxloc(b, i)))
            return out
        if k == 'un' and e['op'] == '*':
            out = []
            for s2, b in self.ev(e['e'], fr, s):
                self.deref(s2, b, e, fr)
                out.append((s2, derefp(b)))
            return out
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            out = []
            for s2, _ in self.ev(e, fr, s):
                out += self.lv(e['e'], fr, s2)
            return out
        if k == 'asg':
            out = []
            for s2, _ in self.ev(e, fr, s):
                out += self.lv(e['a'], fr, s2)
            return out
        if k == 'cond':
            out = []
            for s2, b in self.cond(e['a'], fr, s):
                out += self.lv(e.get('x') or e['a'] if b else e['y'], fr, s2)
            return out
        if k == 'this':
            return [(s, deref(fr.this))]
        if k == 'call':
            if e.get('op') == '*' and e.get('args'):
                out = []
                for s2, b in self.ev(e['args'][0], fr, s):
                    self.deref(s2, b, e, fr)
                    out.append((s2, derefp(b)))
                return out
            if e.get('f') in ('std::move', 'std::forward', 'std::ref', 'std::addressof'):
                return self.lv(e['args'][0], fr, s)
            out = []
            for s2, v in self.ev(e, fr, s):
                if v[0] == 'ref':
                    out.append((s2, v[1]))
                elif v[0] == 'O':
                    out.append((s2, v[1]))
                else:
                    out.append((s2, ('X', v)))
            return out
        if k in ('cast', 'ptrbool'):
            return self.lv(e['e'], fr, s) if unref(e['t']) == unref(e['e'].get('t', '')) else \
                [(s2, ('X', v)) for s2, v in self.ev(e, fr, s)]
        # rvalue bound to a reference / temporary
        out = []
        for s2, v in self.ev(e, fr, s):
            if v[0] == 'O':
                out.append((s2, v[1]))
            else:
                s2 = s2.copy()
                loc = ('T', next(self.cnt))
                s2.store[loc] = v
                out.append((s2, loc))
        return out

    def varloc(self, vid, fr, s):
        f = fr
        loc = ('L', f.fid, vid)
        while f and ('L', f.fid, vid) not in s.store and f.fn.get('_lambda'):
            f = f.parent
            loc = ('L', f.fid, vid)
        return loc

    def deref(self, s, b, e, fr):
        if self.on_deref:
            self.on_deref(s, b, e, fr)

    def load(self, s, loc, ty='?'):
        if loc[0] == 'X' and loc not in s.store:
            # location standing for an externally owned value
            v = s.ver.get(loc)
            if v is None:
                return loc[1]
            t = ('ld', loc, v)
            TT[t] = ty
            return t
        v = s.store.get(loc)
        if v is not None:
            if v[0] == 'ref':
                return self.load(s, v[1], ty)
            return v
        if ty.startswith('R:') and not is_std(ty):
            return ('O', loc)
        if ty[:1] == 'a' and ':' in ty and ty[1:2].isdigit():
            return ('ad', loc)
        # base object copy?
        b = loc
        path = []
        while b[0] in ('F', 'I'):
            path.append(b)
            b2 = b[1]
            base = s.store.get(('base', b2))
            if base is not None:
                src = base[1] if base[0] == 'O' else ('X', base)
                nl = rebase(loc, b2, src)
                return self.load(s, nl, ty)
            if s.store.get(('born', b2)) is not None and loc[0] == 'F':
                t = ('undef', loc, s.store[('born', b2)])
                TT[t] = ty
                return t
            b = b2
        f = loc[2] if loc[0] == 'F' else ('[]' if loc[0] in ('I', 'D') else (loc[1] if loc[0] == 'G' else loc))
        t = ('ld', loc, max(s.ver.get(f, 0), s.ver.get('@all', 0)) if loc[0] != 'L' else s.ver.get(f, 0))
        if ty != '?':
            TT[t] = ty
        return t

    def assign(self, s, loc, val, ty, fr, line):
        """returns new state"""
        s = s.copy()
        if ty.startswith('R:') and not is_std(ty):
            self.copy_obj(s, val, loc)
        else:
            val = self.conv(val, ty, s)
            self.clear_obj(s, loc)
            s.store[loc] = val
        if loc[0] not in ('L', 'T') and not (rootof(loc)[0] == 'L'):
            s.ev = s.ev + (('st', loc, val, line, fr.fn['file'], fr.fn['f']),)
        return s

    def conv(self, v, ty, s):
        """integer conversion"""
        if v[0] == 'ref':
            return v
        if ty in INT:
            if v[0] == 'i':
                lo, hi = rng(ty)
                n = v[1]
                if ty == 'b':
                    return I(1 if n else 0)
                w = int(ty[1:])
                n &= (1 << w) - 1
                if ty[0] == 'i' and n >> (w - 1):
                    n -= 1 << w
                return I(n)
            vt = TT.get(v)
            if vt == ty or ty == 'b' and v[0] == 'atomv':
                return v
            lo, hi = s.bounds(v)
            rl, rh = rng(ty)
            src = rng(vt) if vt else None
            if src and src[0] >= rl and src[1] <= rh:
                return v
            if lo is not None and hi is not None and lo >= rl and hi <= rh:
                return v
            if ty == 'b':
                return v
            w = int(ty[1:])
            if w >= 32:
                # widening or same-width reinterpretation: kept mathematical
                if vt is None or not isint(vt) or int(vt[1:] or 1) <= w if vt != 'b' else True:
                    return v
                if w >= 64:
                    return v
                if v[0] == 'call' and v[1] == 'size':
                    return v        # element counts stay below 2^31 (assumption)
            t = ('tr', ty, v)
            TT[t] = ty
            return t
        return v

    # ================================================================ conditions
    def cond(self, e, fr, s):
        """list of (state, bool)"""
        k = e['k']
        if e.get('cv') is not None and k != 'asg' and not self.has_effect(e):
            return [(s, bool(e['cv']))]
        if k == 'un' and e['op'] == '!':
            return [(x, not b) for x, b in self.cond(e['e'], fr, s)]
        if k in ('ptrbool',):
            return self.cond(e['e'], fr, s)
        if k == 'cast' and e['t'] == 'b':
            return self.cond(e['e'], fr, s)
        if k == 'call' and e.get('op') == '!':
            return [(x, not b) for x, b in self.cond(e['args'][0], fr, s)]
        if k == 'call' and e.get('f', '').endswith('::operator bool') and e.get('obj'):
            return self.cond(e['obj'], fr, s)
        if k == 'bin' and e['op'] == '&&':
            out = []
            for x, b in self.cond(e['a'], fr, s):
                if b:
                    out += self.cond(e['c'], fr, x)
                else:
                    out.append((x, False))
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for x, b in self.cond(e['a'], fr, s):
                if b:
                    out.append((x, True))
                else:
                    out += self.cond(e['c'], fr, x)
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for x, _ in self.ev(e['a'], fr, s):
                out += self.cond(e['c'], fr, x)
            return out
        if k == 'cond' and not e.get('elvis'):
            out = []
            for x, b in self.cond(e['a'], fr, s):
                out += self.cond(e['x'] if b else e['y'], fr, x)
            return out
        out = []
        for x, v in self.ev(e, fr, s):
            if x.aux.get('_dead'):
                continue
            if v[0] == 'ref':
                v = self.load(x, v[1], e.get('t', '?'))
            out += self.split(x, v)
        return out

    def split(self, s, v):
        """fork on the truth of value v"""
        if v[0] == 'i':
            return [(s, v[1] != 0)]
        if v == NULL:
            return [(s, False)]
        if nonnull_term(v):
            return [(s, True)]
        atom, pol = truth_atom(v)
        if atom is True or atom is False:
            return [(s, atom == pol)]
        out = []
        a = s.assume(atom, pol)
        if a is not None:
            out.append((a, True))
        b = s.assume(atom, not pol)
        if b is not None:
            out.append((b, False))
        return out

    def has_effect(self, e):
        for x in walk(e):
            k = x.get('k')
            if k == 'asg' or k == 'call' or (k == 'un' and x['op'] in ('++', '--')):
                return True
        return False

    # ================================================================ expressions
    def ev(self, e, fr, s):
        """list of (state, value)"""
        if e is None:
            return [(s, ('void',))]
        k = e['k']
        if 'cv' in e and k not in ('asg', 'call'):
            return [(s, I(ucv(e)))]
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise AnalysisError('expression kind %s at %s:%s' % (k, fr.fn['file'], e.get('l')))
        return m(e, fr, s)

    def e_int(self, e, fr, s):
        return [(s, I(e['v']))]

    def e_str(self, e, fr, s):
        return [(s, ('s', e['v']))]

    def e_float(self, e, fr, s):
        return [(s, ('fr', 'float', e['l']))]

    def e_null(self, e, fr, s):
        return [(s, NULL)]

    def e_zero(self, e, fr, s):
        if e['t'] in INT:
            return [(s, ZERO)]
        if e['t'].startswith('p:'):
            return [(s, NULL)]
        return [(s, ('zero', e['t']))]

    def e_this(self, e, fr, s):
        return [(s, fr.this)]

    def e_fnref(self, e, fr, s):
        return [(s, ('fnref', e['f'], e['u']))]

    def e_memfn(self, e, fr, s):
        return [(s, ('fnref', e['f'], e['u']))]

    def e_var(self, e, fr, s):
        out = []
        for s2, l in self.lv(e, fr, s):
            out.append((s2, self.gload(s2, l, e)))
        return out

    def gload(self, s, l, e):
        if l[0] == 'G' and l not in s.store:
            g = self.p.globals.get(l[1])
            if g and g.get('const') and g.get('init'):
                i = g['init']
                c = i.get('cv', i.get('v'))
                if isinstance(c, int):
                    return I(c)
        return self.load(s, l, e['t'])

    def e_mem(self, e, fr, s):
        return [(s2, self.load(s2, l, e['t'])) for s2, l in self.lv(e, fr, s)]

    e_idx = e_mem

    def e_sizeof(self, e, fr, s):
        return [(s, I(e['cv']))] if 'cv' in e else [(s, ('fr', 'sizeof', next(self.cnt)))]

    e_offsetof = e_sizeof

    def e_unk(self, e, fr, s):
        out = [s]
        for a in e.get('args', []):
            nx = []
            for x in out:
                nx += [y for y, _ in self.ev(a, fr, x)]
            out = nx
        r = []
        for x in out:
            v = ('fr', 'unk', next(self.cnt))
            TT[v] = e['t']
            r.append((x, v))
        return r

    def e_tovoid(self, e, fr, s):
        return [(x, ('void',)) for x, _ in self.ev(e['e'], fr, s)]

    def e_cast(self, e, fr, s):
        out = []
        for x, v in self.ev(e['e'], fr, s):
            if v[0] == 'ref':
                v = self.load(x, v[1], e['t'])
            if e['t'] == 'b' and v[0] == 'i':
                v = I(1 if v[1] else 0)
            elif e['t'] in INT:
                if v not in TT and v[0] not in ('i', 'lin') and isint(e['e'].get('t', '')):
                    TT[v] = e['e']['t']
                v = self.conv(v, e['t'], x)
            out.append((x, v))
        return out

    def e_ptrbool(self, e, fr, s):
        out = []
        for x, v in self.ev(e['e'], fr, s):
            if v == NULL:
                out.append((x, ZERO))
            elif nonnull_term(v):
                out.append((x, I(1)))
            else:
                c = x.const_of(v)
                if c == NULL:
                    out.append((x, ZERO))
                else:
                    t = ('not0', v)
                    TT[t] = 'b'
                    out.append((x, t))
        return out

    def e_dyncast(self, e, fr, s):
        out = []
        for x, v in self.ev(e['e'], fr, s):
            if v[0] == 'new' or v[0] == 'null':
                out.append((x, v))
            else:
                t = ('dyn', e['t'], v)
                TT[t] = e['t']
                out.append((x, t))
        return out

    def e_un(self, e, fr, s):
        op = e['op']
        if op == '&':
            if e['e']['k'] in ('fnref', 'memfn'):
                return self.ev(e['e'], fr, s)
            return [(x, addr(l)) for x, l in self.lv(e['e'], fr, s)]
        if op == '*':
            return [(x, self.load(x, l, e['t'])) for x, l in self.lv(e, fr, s)]
        if op in ('++', '--'):
            out = []
            for x, l in self.lv(e['e'], fr, s):
                old = self.load(x, l, e['e']['t'])
                new = self.addv(old, I(1 if op == '++' else -1), e['e']['t'])
                x2 = self.assign(x, l, new, e['e']['t'], fr, e['l'])
                out.append((x2, old if e.get('post') else self.load(x2, l, e['e']['t'])))
            return out
        if op == '!':
            return [(x, I(1 if b else 0)) for x, b in self.cond(e, fr, s)] if False else self.boolval(e, fr, s)
        out = []
        for x, v in self.ev(e['e'], fr, s):
            if op == '-':
                r = scale(v, -1) if e['t'] in INT else ('op', '-', ZERO, v)
            elif op == '+':
                r = v
            elif op == '~':
                r = I(~v[1]) if v[0] == 'i' else ('op', '~', v, ZERO)
                r = self.conv(r, e['t'], x) if r[0] == 'i' else r
            else:
                r = ('op', op, v, ZERO)
            if r[0] not in ('i', 'lin'):
                TT.setdefault(r, e['t'])
            out.append((x, r))
        return out

    def boolval(self, e, fr, s):
        """value of a boolean expression, without forking when possible"""
        if e['k'] == 'un' and e['op'] == '!':
            out = []
            for x, v in self.ev(e['e'], fr, s):
                if v[0] == 'i':
                    out.append((x, I(0 if v[1] else 1)))
                elif v == NULL:
                    out.append((x, I(1)))
                elif nonnull_term(v):
                    out.append((x, ZERO))
                else:
                    out.append((x, notv(v)))
            return out
        return self.ev(e, fr, s)

    def addv(self, a, b, ty):
        if ty in INT or ty in ('?',) or ty.startswith('p:') or a[0] in ('i', 'lin'):
            if a[0] == 'ad' and a[1][0] == 'I':
                return ('ad', ('I', a[1][1], add(a[1][2], b)))
            if a[0] == 'ad' and b != ZERO:
                return ('ad', ('I', a[1], b))
            r = add(a, b)
            return r
        r = ('op', '+', a, b)
        TT[r] = ty
        return r

    def e_bin(self, e, fr, s):
        op = e['op']
        if op in ('&&', '||'):
            return [(x, I(1 if b else 0)) for x, b in self.cond(e, fr, s)]
        if op == ',':
            out = []
            for x, _ in self.ev(e['a'], fr, s):
                out += self.ev(e['c'], fr, x)
            return out
        out = []
        for x, a in self.ev(e['a'], fr, s):
            for y, b in self.ev(e['c'], fr, x):
                out.append((y, self.binop(op, a, b, e, y)))
        return out

    def binop(self, op, a, b, e, s):
        if a[0] == 'ref':
            a = self.load(s, a[1], e['a']['t'])
        if b[0] == 'ref':
            b = self.load(s, b[1], e['c']['t'])
        for v, n in ((a, e['a']), (b, e['c'])):
            if v not in TT and v[0] not in ('i', 'lin', 'null', 's') and n.get('t') in INT:
                TT[v] = n['t']
        ty = e['t']
        ca, cb = s.const_of(a), s.const_of(b)
        if op in ('+', '-', '*') and ty in INT:
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if cb is not None and cb[0] == 'i':
                return scale(a, cb[1])
            if ca is not None and ca[0] == 'i':
                return scale(b, ca[1])
        if op in ('+', '-') and ty.startswith('p:'):
            if op == '+' and isint(e['a'].get('t', '')) and not isint(e['c'].get('t', '')):
                a, b = b, a
            return self.addv(a, b if op == '+' else scale(b, -1), ty)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, e)
        if ca is not None and cb is not None and ca[0] == 'i' and cb[0] == 'i' and ty in INT:
            x, y = ca[1], cb[1]
            try:
                r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                     '<<': lambda: x << y, '>>': lambda: x >> y,
                     '/': lambda: int(x / y) if y else None,
                     '%': lambda: x - int(x / y) * y if y else None}[op]()
                if r is not None:
                    return self.conv(I(r), ty, s)
            except Exception:
                pass
        if op == '<<' and b[0] == 'i' and 0 <= b[1] < 31 and ty in INT and False:
            return scale(a, 1 << b[1])
        if op in ('&', '|', '^', '*') and repr(a) > repr(b):
            a, b = b, a
        r = ('op', op, a, b)
        TT.setdefault(r, ty)
        return r

    def compare(self, op, a, b, e=None):
        if op in ('==', '!='):
            at = eqatom(a, b)
            if at is True or at is False:
                r = at == (op == '==')
                return I(1 if r else 0)
            return ('atomv', at, op == '==')
        at = {'<': lambda: ('le0', add(sub(a, b), I(1))), '<=': lambda: ('le0', sub(a, b)),
              '>': lambda: ('le0', add(sub(b, a), I(1))), '>=': lambda: ('le0', sub(b, a))}[op]()
        if at[1][0] == 'i':
            return I(1 if at[1][1] <= 0 else 0)
        return ('atomv', at, True)

    def e_asg(self, e, fr, s):
        op = e['op']
        out = []
        lt = e['a']['t']
        if op == '=':
            # evaluate rhs first (C++17 order; also fine for the repo's style)
            for x, v in self.ev(e['c'], fr, s):
                if v[0] == 'ref':
                    v = self.load(x, v[1], e['c']['t'])
                for y, l in self.lv(e['a'], fr, x):
                    z = self.assign(y, l, v, lt, fr, e['l'])
                    out.append((z, self.load(z, l, lt)))
            return out
        bop = op[:-1]
        for x, v in self.ev(e['c'], fr, s):
            for y, l in self.lv(e['a'], fr, x):
                old = self.load(y, l, lt)
                if lt.startswith('p:'):
                    nv = self.addv(old, v if bop == '+' else scale(v, -1), lt)
                else:
                    nv = self.binop(bop, old, v, {'a': e['a'], 'c': e['c'], 't': e.get('crt', lt)}, y)
                z = self.assign(y, l, nv, lt, fr, e['l'])
                out.append((z, self.load(z, l, lt)))
        return out

    def e_cond(self, e, fr, s):
        out = []
        if e.get('elvis'):
            for x, v in self.ev(e['a'], fr, s):
                for y, b in self.split(x, v):
                    if b:
                        out.append((y, v))
                    else:
                        out += self.ev(e['y'], fr, y)
            return out
        for x, b in self.cond(e['a'], fr, s):
            out += self.ev(e['x'] if b else e['y'], fr, x)
        return out

    def e_new(self, e, fr, s):
        out = []
        sts = [(s, None)]
        if e.get('n'):
            sts = self.ev(e['n'], fr, s)
        for x, n in sts:
            x = x.copy()
            v = ('new', e['at'], next(self.cnt))
            TT[v] = e['t']
            x.ev = x.ev + (('new', e['at'], n, v, e['l'], fr.fn['file'], fr.fn['f']),)
            if e.get('init') and e['at'].startswith('R:'):
                for y in self.init_obj(e['init'], ('D', v), fr, x):
                    out.append((y, v))
            else:
                out.append((x, v))
        return out

    def e_del(self, e, fr, s):
        out = []
        for x, v in self.ev(e['e'], fr, s):
            x = x.copy()
            x.ev = x.ev + (('del', v, e.get('arr'), e['l'], fr.fn['file'], fr.fn['f']),)
            out.append((x, ('void',)))
        return out

    def e_ilist(self, e, fr, s):
        sts = [(s, ())]
        for a in e['args']:
            nx = []
            for x, vs in sts:
                for y, v in self.ev(a, fr, x):
                    nx.append((y, vs + (v,)))
            sts = nx
        if e['t'].startswith('R:') and not is_std(e['t']):
            out = []
            r = self.p.records.get(e['t'][2:])
            for x, vs in sts:
                x = x.copy()
                loc = ('T', next(self.cnt))
                for i, v in enumerate(vs):
                    q = r['fields'][i]['q'] if r and i < len(r['fields']) else 'f%d' % i
                    if v[0] == 'O':
                        self.copy_obj(x, v, ('F', loc, q))
                    else:
                        x.store[('F', loc, q)] = v
                out.append((x, ('O', loc)))
            return out
        if isint(e['t']) or e['t'].startswith('p:'):
            return [(x, vs[0] if vs else (ZERO if isint(e['t']) else NULL)) for x, vs in sts]
        return [(x, ('ilv', vs)) for x, vs in sts]

    def e_lambda(self, e, fr, s):
        v = ('lam', id(e), fr.fid)
        self._lams = getattr(self, '_lams', {})
        self._lams[id(e)] = (e, fr)
        s = s.copy()
        s.ev = s.ev + (('lambda', v, e['l'], fr.fn['file'], fr.fn['f']),)
        return [(s, v)]

    def e_throw(self, e, fr, s):
        s = s.copy()
        s.aux['_dead'] = True
        return []

    def e_stmtexpr(self, e, fr, s):
        r = self.stmt(e['body'], fr, [s])
        return [(x, ('fr', 'stmtexpr', next(self.cnt))) for x in r.n]

    def e_ctor(self, e, fr, s):
        cls = e.get('cls', '')
        out = []
        for x, args in self.evargs(e, fr, s):
            if is_std(e['t']):
                args = tuple(self.load(x, a[1], '?') if a[0] == 'ref' else a for a in args)
            if e['t'].startswith('R:') and is_smart(e['t']):
                # smart pointer constructions
                if not args:
                    out.append((x, NULL))
                else:
                    out.append((x, args[0]))
                continue
            if is_std(e['t']):
                if len(args) == 0:
                    out.append((x, ('empty', e['t'])))
                elif 'basic_string' in e['t'][:40] and args[0][0] in ('s', 'cstr') and (len(args) < 2 or args[1][0] in ('fr', 'empty')):
                    out.append((x, args[0][1] if args[0][0] == 'cstr' else args[0]))
                else:
                    out.append((x, ('mk', e['t'], tuple(args))))
                continue
            loc = ('T', next(self.cnt))
            x = x.copy()
            x.store[('born', loc)] = ('b', next(self.cnt))
            for y in self.construct(e, cls or e['t'][2:], loc, args, fr, x):
                out.append((y, ('O', loc)))
        return out

    # ================================================================ calls
    def evargs(self, e, fr, s, skip=0):
        """evaluate call arguments: list of (state, [values]); reference params give ('ref', loc)"""
        sts = [(s, ())]
        pt = e.get('pt', [])
        for i, a in enumerate(e.get('args', [])[skip:]):
            t = pt[i] if i < len(pt) else ''
            nx = []
            for x, vs in sts:
                if t.startswith('r:') and not (len(t) > 2 and False):
                    for y, l in self.lv(a, fr, x):
                        nx.append((y, vs + (('ref', l),)))
                elif t.startswith('cr:') and a['t'].startswith('R:') and not is_std(a['t']):
                    for y, l in self.lv(a, fr, x):
                        nx.append((y, vs + (('O', l),)))
                else:
                    for y, v in self.ev(a, fr, x):
                        if v[0] == 'ref':
                            v = self.load(y, v[1], a['t'])
                        if v not in TT and v[0] not in ('i', 'lin', 'null', 's') and isint(a.get('t', '')):
                            TT[v] = a['t']
                        nx.append((y, vs + (v,)))
            sts = nx
        return sts

    def e_call(self, e, fr, s):
        f = e.get('f', '')
        if f in LOGGERS and not self.keep_log:
            return [(s, ('void',))]
        if 'cv' in e and not self.p.funcs.get(e.get('u')):
            return [(s, I(ucv(e)))]
        # modelled by the rule
        m = self.model.get(f)
        if m:
            r = m(self, e, fr, s)
            if r is not None:
                return r
        if f in ('std::move', 'std::forward', 'std::__addressof', 'std::addressof', 'std::ref', 'std::cref'):
            a = e['args'][0]
            if f.endswith('addressof'):
                return [(x, addr(l)) for x, l in self.lv(a, fr, s)]
            return self.ev(a, fr, s)
        if f in ('std::min', 'std::max') and len(e['args']) >= 2:
            out = []
            for x, a in self.ev(e['args'][0], fr, s):
                for y, b in self.ev(e['args'][1], fr, x):
                    if a[0] == 'ref':
                        a = self.load(y, a[1], e['t'])
                    if b[0] == 'ref':
                        b = self.load(y, b[1], e['t'])
                    at = ('le0', sub(a, b))
                    if at[1][0] == 'i':
                        le = at[1][1] <= 0
                        out.append((y, (a if le else b) if f == 'std::min' else (b if le else a)))
                        continue
                    z = y.assume(at, True)
                    if z is not None:
                        out.append((z, a if f == 'std::min' else b))
                    z = y.assume(at, False)
                    if z is not None:
                        out.append((z, b if f == 'std::min' else a))
            return out
        if f in ('std::make_shared', 'std::make_unique'):
            return self.make(e, fr, s)
        if f in ('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'dynamic_pointer_cast'):
            out = []
            for x, v in self.ev(e['args'][0], fr, s):
                if v[0] == 'ref':
                    v = self.load(x, v[1], e['args'][0]['t'])
                if 'static' in f or v[0] in ('new', 'null'):
                    out.append((x, v))
                else:
                    t = ('dyn', e['t'], v)
                    TT[t] = e['t']
                    out.append((x, t))
            return out
        if e.get('op'):
            r = self.opcall(e, fr, s)
            if r is not None:
                return r
        if e.get('obj') is not None:
            return self.membercall(e, fr, s)
        if 'fx' in e:
            return self.indirect(e, fr, s)
        return self.freecall(e, fr, s)

    def make(self, e, fr, s):
        t = e['t']
        inner = tmplarg(t)
        fs = self.p.ctors(inner, len(e['args'])) if inner else []
        # also allow defaulted trailing params
        cands = fs
        if len(cands) != 1 and inner:
            cands = [c for c in self.p.ctors(inner) if len(c['params']) >= len(e['args'])] if not fs else fs
            if len(cands) > 1 and not fs:
                cands = [c for c in cands if all('dv' in q for q in c['params'][len(e['args']):])] or cands
        if len(cands) > 1:
            cands = self.pick_ctor(cands, e)
        ctor = cands[0] if len(cands) == 1 else None
        fake = dict(e)
        if ctor:
            fake['pt'] = ctor.get('pt', [])
            fake['u'] = ctor['u']
        else:
            fake['pt'] = []
        out = []
        for x, args in self.evargs(fake, fr, s):
            x = x.copy()
            v = ('new', inner or t, next(self.cnt))
            TT[v] = t
            x.ev = x.ev + (('make', inner or t, args, v, e['l'], fr.fn['file'], fr.fn['f']),)
            if ctor and len(args) < len(ctor['params']) and all('dv' in q for q in ctor['params'][len(args):]):
                args = tuple(args) + tuple(I(q['dv']) for q in ctor['params'][len(args):])
            if ctor and self.ctor_inline and self.can_inline(ctor, fr) and len(args) == len(ctor['params']):
                for y, _ in self.call_fn(ctor, fr, x, v, args, e):
                    out.append((y, v))
            else:
                out.append((x, v))
        return out

    def pick_ctor(self, cands, e):
        best = []
        for c in cands:
            if len(c['params']) != len(e['args']):
                continue
            sc = 0
            for p, a in zip(c['params'], e['args']):
                pt, at = unref(p['t']), unref(a['t'])
                if pt == at:
                    sc += 2
                elif isint(pt) and isint(at):
                    sc += 1
                elif pt[:2] == at[:2]:
                    sc += 1
            best.append((sc, c))
        if not best:
            return []
        m = max(b[0] for b in best)
        r = [c for sc, c in best if sc == m]
        return r if len(r) == 1 else []

    def opcall(self, e, fr, s):
        op, args = e['op'], e['args']
        t0 = unref(args[0]['t'])
        f = e.get('f', '')
        if self.p.funcs.get(e.get('u')):
            return None       # repo operator: ordinary call
        if op in ('->', '*') and len(args) == 1 and is_smart(t0):
            out = []
            for x, v in self.ev(args[0], fr, s):
                if v[0] == 'ref':
                    v = self.load(x, v[1], t0)
                if op == '->':
                    out.append((x, v))
                else:
                    self.deref(x, v, e, fr)
                    out.append((x, ('ref', derefp(v))))
            return out
        if op == '=' and is_std(t0):
            out = []
            for x, v in self.ev(args[1], fr, s):
                if v[0] == 'ref':
                    v = self.load(x, v[1], t0)
                if v[0] == 'ilv' and not v[1]:
                    v = ('empty', t0)
                for y, l in self.lv(args[0], fr, x):
                    out.append((self.assign(y, l, v, t0, fr, e['l']), ('ref', l)))
            return out
        if op == '=' and (t0.startswith('R:')):
            # implicit copy/move assignment of a repo struct
            out = []
            for x, v in self.ev(args[1], fr, s):
                if v[0] == 'ref':
                    v = ('O', v[1])
                for y, l in self.lv(args[0], fr, x):
                    out.append((self.assign(y, l, v, t0, fr, e['l']), ('ref', l)))
            return out
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
            out = []
            for x, a in self.ev(args[0], fr, s):
                if a[0] == 'ref':
                    a = self.load(x, a[1], t0)
                for y, b in self.ev(args[1], fr, x):
                    if b[0] == 'ref':
                        b = self.load(y, b[1], unref(args[1]['t']))
                    if op in ('==', '!='):
                        out.append((y, self.compare(op, a, b, e)))
                    else:
                        t = ('op', op, a, b)
                        TT[t] = 'b'
                        out.append((y, t))
            return out
        if op in ('+',) and is_std(t0) or op == '+' and is_std(unref(e['t'])):
            out = []
            for x, a in self.ev(args[0], fr, s):
                if a[0] == 'ref':
                    a = self.load(x, a[1], t0)
                for y, b in self.ev(args[1], fr, x):
                    if b[0] == 'ref':
                        b = self.load(y, b[1], unref(args[1]['t']))
                    out.append((y, cat(a, b)))
            return out
        if op == '+=' and is_std(t0):
            out = []
            for x, b in self.ev(args[1], fr, s):
                if b[0] == 'ref':
                    b = self.load(x, b[1], unref(args[1]['t']))
                for y, l in self.lv(args[0], fr, x):
                    old = self.load(y, l, t0)
                    out.append((self.assign(y, l, cat(old, b), t0, fr, e['l']), ('ref', l)))
            return out
        if op == '[]' and is_std(t0):
            out = []
            for x, l in self.lv(args[0], fr, s):
                for y, i in self.ev(args[1], fr, x):
                    if i[0] == 'ref':
                        i = self.load(y, i[1], unref(args[1]['t']))
                    y = y.copy()
                    cv = self.load(y, l, t0)
                    y.ev = y.ev + (('at', l, i, e['l'], fr.fn['file'], fr.fn['f'], cv),)
                    out.append((y, ('ref', ('I', l, i))))
            return out
        if op == '()':
            for x, v in self.ev(args[0], fr, s):
                if v[0] == 'lam' and v[1] in getattr(self, '_lams', {}):
                    return self.call_lambda(v, e, args[1:], fr, s)
            return None
        if op in ('++', '--') and is_std(t0) or ('iterator' in t0 and op in ('++', '--')):
            out = []
            for x, l in self.lv(args[0], fr, s):
                old = self.load(x, l, t0)
                nv = ('next', old) if op == '++' else ('prev', old)
                y = self.assign(x, l, nv, t0, fr, e['l'])
                out.append((y, old if len(args) > 1 else nv))
            return out
        if op in ('->', '*') and len(args) == 1:
            # iterators and others
            out = []
            for x, v in self.ev(args[0], fr, s):
                if v[0] == 'ref':
                    v = self.load(x, v[1], t0)
                if op == '->':
                    out.append((x, ('itp', v)))
                else:
                    out.append((x, ('ref', ('X', ('it', v)))))
            return out
        return None

    def call_lambda(self, v, e, argn, fr, s):
        node, cfr = self._lams[v[1]]
        if fr.depth > self.max_depth:
            return None
        fn = {'f': cfr.fn['f'] + '::lambda', 'u': 'lam%d' % v[1], 'file': cfr.fn['file'], 'l': node['l'],
              'params': node['params'], 'body': node['body'], 'ret': '?', '_lambda': True, 'cls': cfr.fn.get('cls')}
        out = []
        sts = [(s, ())]
        for i, a in enumerate(argn):
            nx = []
            for x, vs in sts:
                if i < len(node['params']) and node['params'][i]['t'].startswith('r:'):
                    nx += [(y, vs + (('ref', l),)) for y, l in self.lv(a, fr, x)]
                else:
                    nx += [(y, vs + (w,)) for y, w in self.ev(a, fr, x)]
            sts = nx
        for x, vs in sts:
            out += self.call_fn(fn, cfr, x, cfr.this, vs, e, lam=cfr)
        return out

    def membercall(self, e, fr, s):
        f = e['f']
        ot = unref(e.get('ot', ''))
        if e.get('arrow') and ot.startswith('p:'):
            ot = ot[2:]
        name = f.rsplit('::', 1)[-1]
        cls = e.get('cls', '')
        out = []
        if cls.startswith('std::') and (is_smart('R:' + cls)):
            for x, l in ([(x, derefp(q)) for x, q in self.ev(e['obj'], fr, s)] if e.get('arrow') else self.lv(e['obj'], fr, s)):
                v = self.load(x, l, 'R:' + cls)
                if name in ('get', 'lock', 'operator bool'):
                    out.append((x, v))
                elif name == 'reset':
                    for y, args in self.evargs(e, fr, x):
                        out.append((self.assign(y, l, args[0] if args else NULL, 'R:' + cls, fr, e['l']), ('void',)))
                else:
                    t = ('call', name, v)
                    TT[t] = e['t']
                    out.append((x, t))
            return out
        if cls.startswith('std::') and not self.p.funcs.get(e.get('u')):
            return self.stdcall(e, fr, s, name, cls)
        # repo method
        base = []
        if e.get('arrow'):
            base = self.ev(e['obj'], fr, s)
        else:
            base = [(x, addr(l)) for x, l in self.lv(e['obj'], fr, s)]
        for x, ov in base:
            if ov[0] == 'ref':
                ov = self.load(x, ov[1], e['obj']['t'])
            if e.get('arrow') or (e['obj']['k'] in ('call', 'un') and ov[0] not in ('ad',)):
                self.deref(x, ov, e, fr)
            for y, args in self.evargs(e, fr, x):
                out += self.invoke(e, fr, y, ov, args)
        return out

    CONST_METHODS = {'size', 'empty', 'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'find', 'count', 'c_str', 'data',
                     'length', 'at', 'substr', 'compare', 'rfind', 'find_first_of', 'find_last_of', 'capacity',
                     'lower_bound', 'upper_bound', 'equal_range', 'cbegin', 'cend', 'find_first_not_of', 'find_last_not_of'}

    def stdcall(self, e, fr, s, name, cls):
        out = []
        if e.get('arrow'):
            bases = [(x, derefp(v)) for x, v in self.ev(e['obj'], fr, s)]
        else:
            bases = self.lv(e['obj'], fr, s)
        for x, l in bases:
            v = self.load(x, l, 'R:' + cls)
            for y, args in self.evargs(e, fr, x):
                av = tuple(self.load(y, a[1], '?') if a[0] == 'ref' else a for a in args)
                if name in self.CONST_METHODS:
                    if name == 'c_str' or name == 'data':
                        t = ('cstr', v)
                    elif name in ('length', 'size'):
                        t = ('call', 'size', v) if v[0] != 'empty' else ZERO
                        NONNEG.add(t)
                    elif name == 'cbegin':
                        t = ('call', 'begin', v)
                    elif name == 'cend':
                        t = ('call', 'end', v)
                    elif name == 'empty' and v[0] == 'empty':
                        t = I(1)
                    elif name == 'empty' and v[0] == 'M' and v[1] in ('push_back', 'push_front', 'insert', 'emplace_back'):
                        t = ZERO
                    elif name in ('front', 'back') and v[0] == 'M' and v[1] == 'push_back' and name == 'back':
                        t = v[3][0]
                    elif name == 'empty':
                        sz = ('call', 'size', v)
                        TT.setdefault(sz, 'u64')
                        NONNEG.add(sz)
                        t = ('atomv', ('eq', sz, ZERO), True)
                    else:
                        t = ('call', name, v) + av
                    if t[0] == 'call':
                        TT.setdefault(t, e['t'] if not e['t'].startswith('r:') else unref(e['t']))
                    if name in ('begin', 'end', 'find', 'count', 'at', 'lower_bound', 'front', 'back'):
                        y = y.copy()
                        y.ev = y.ev + (('q', name, l, av, t, e['l'], fr.fn['file'], fr.fn['f'], v),)
                    out.append((y, t))
                else:
                    if name == 'clear':
                        nv = ('empty', 'R:' + cls)
                    elif name == 'swap' and args and args[0][0] == 'ref':
                        ov = self.load(y, args[0][1], 'R:' + cls)
                        y = self.assign(y, args[0][1], v, 'R:' + cls, fr, e['l'])
                        nv = ov
                    elif name == 'splice' and len(args) == 2 and args[1][0] == 'ref':
                        nv = ('M', name, v, av)
                        y = y.copy()
                        y.ev = y.ev + (('mut', 'clear', args[1][1], (), e['l'], fr.fn['file'], fr.fn['f'], av[1]),)
                        y.store[args[1][1]] = ('empty', 'R:' + cls)
                    else:
                        nv = ('M', name, v, av)
                    y = y.copy()
                    y.ev = y.ev + (('mut', name, l, av, e['l'], fr.fn['file'], fr.fn['f'], v),)
                    y.store[l] = nv
                    if l[0] == 'X':
                        pass
                    r = ('mr', name, v, av)
                    TT.setdefault(r, unref(e['t']))
                    out.append((y, r))
        return out

    def indirect(self, e, fr, s):
        out = []
        for x, fv in self.ev(e['fx'], fr, s):
            if fv[0] == 'fnref' and fv[2] in self.p.funcs:
                e2 = dict(e)
                g = self.p.funcs[fv[2]]
                e2['f'], e2['u'], e2['pt'] = g['f'], g['u'], g.get('pt', [])
                out += self.freecall(e2, fr, x)
                continue
            for y, args in self.evargs(e, fr, x):
                out += self.unknown(e, '(*)', fr, y, fv, args)
        return out

    def freecall(self, e, fr, s):
        out = []
        f = e.get('f', '')
        skip = 0
        if e.get('memop'):
            # operator defined as repo member
            for x, l in self.lv(e['args'][0], fr, s):
                for y, args in self.evargs(e, fr, x, skip=1):
                    out += self.invoke(e, fr, y, addr(l), args)
            return out
        for x, args in self.evargs(e, fr, s):
            if f in PURE_C or f.startswith('std::__cxx11::to_string') or f == 'std::to_string':
                av = tuple(self.load(x, a[1], '?') if a[0] == 'ref' else a for a in args)
                t = ('call', f) + av
                TT.setdefault(t, e['t'])
                out.append((x, t))
                continue
            out += self.invoke(e, fr, x, None, args)
        return out

    def resolve(self, e, ov):
        """function definition to expand for this call (None: opaque)"""
        u = e.get('u')
        if e.get('virt') and not e.get('nonvirt'):
            dyn = dyn_class(ov)
            if dyn:
                return self.p.method_in(dyn, u)
            im = self.p.impls(u)
            if len(im) == 1:
                return im[0]
            if ov == ('this',) or (self.dispatch):
                d = self.dispatch(e, ov) if self.dispatch else None
                return d
            return None
        return self.p.funcs.get(u)

    def can_inline(self, f, fr):
        if f['u'] in self.opaque or f['f'] in self.opaque:
            return False
        if fr.depth >= self.max_depth:
            return False
        if f['u'] in set(fr.chain()):
            return False
        if self._inline is not None and not self._inline(f, fr):
            return False
        return True

    def invoke(self, e, fr, s, ov, args):
        self.calls_seen += 1
        g = self.resolve(e, ov)
        if g is not None and self.can_inline(g, fr):
            return self.call_fn(g, fr, s, ov, args, e)
        return self.unknown(e, e.get('f', '?'), fr, s, ov, args)

    def call_fn(self, g, fr, s, ov, args, e, lam=None):
        self.visited.add(g['u'])
        self.nfid += 1
        nf = Frame(self.nfid, g, ov if ov is not None else ('this',), lam or fr)
        nf.depth = fr.depth + 1
        s = s.copy()
        if e is not None:
            s.ev = s.ev + (('enter', g['f'], g['u'], ov, tuple(args), e.get('l'), fr.fn['file'], fr.fn['f']),)
        for i, p in enumerate(g['params']):
            loc = ('L', nf.fid, p['id'])
            v = args[i] if i < len(args) else ('p', p['n'])
            if p['t'].startswith('r:'):
                if v[0] == 'ref':
                    s.store[loc] = v
                elif v[0] == 'O':
                    s.store[loc] = ('ref', v[1])
                else:
                    tl = ('T', next(self.cnt))
                    s.store[tl] = v
                    s.store[loc] = ('ref', tl)
            elif p['t'].startswith('R:') and not is_std(p['t']):
                if v[0] == 'ref':
                    v = ('O', v[1])
                self.copy_obj(s, v, loc)
            else:
                if v[0] == 'ref':
                    v = self.load(s, v[1], p['t'])
                s.store[loc] = self.conv(v, p['t'], s)
        saved_rl = s.aux.get('_rl')
        sts = [s]
        if g.get('isctor'):
            sts = self.ctor_inits(g, nf, sts)
        o = self.stmt(g['body'], nf, sts)
        if o.goto:
            raise AnalysisError('unresolved goto in %s' % g['f'])
        out = []
        for x in o.n + o.ret:
            x = x.copy()
            rv = x.aux.pop('_rv', ('void',))
            rl = x.aux.pop('_rl', None)
            if saved_rl is not None:
                x.aux['_rl'] = saved_rl
            for k in [k for k in x.store if k[0] in ('L', 'born', 'base') and rootof2(k)[0] == 'L' and rootof2(k)[1] == nf.fid]:
                if rv[0] == 'O' and rootof2(k) == rootof(rv[1]):
                    continue
                del x.store[k]
            for k in [k for k in x.store if k[0] in ('F', 'I') and rootof(k)[0] == 'L' and rootof(k)[1] == nf.fid]:
                if rv[0] == 'O' and rootof(k) == rootof(rv[1]):
                    continue
                del x.store[k]
            if e is not None:
                x.ev = x.ev + (('leave', g['f'], g['u'], rv, e.get('l'), fr.fn['file'], fr.fn['f']),)
            out.append((x, rv))
        if len(out) > 40:
            out = dedupe_rv(out)
        if len(out) > self.max_states:
            raise AnalysisError('too many paths in %s' % g['f'])
        return out

    def ctor_inits(self, g, nf, sts):
        for i in g.get('inits', []):
            if i.get('e') is None:
                continue
            nxt = []
            for s in sts:
                if 'q' in i:
                    loc = ('F', deref(nf.this), i['q'])
                    t = i.get('mt', i['e'].get('t', '?'))
                    if t.startswith('R:') and not is_std(t):
                        nxt += self.init_obj(i['e'], loc, nf, s)
                    elif t.startswith('r:'):
                        for x, l in self.lv(i['e'], nf, s):
                            x = x.copy()
                            x.store[loc] = ('ref', l)
                            nxt.append(x)
                    else:
                        for x, v in self.ev(i['e'], nf, s):
                            x = x.copy()
                            if v[0] == 'ref':
                                v = self.load(x, v[1], t)
                            x.store[loc] = self.conv(v, t, x)
                            nxt.append(x)
                else:
                    e = i['e']
                    if e['k'] == 'ctor':
                        f = self.p.funcs.get(e.get('u'))
                        for x, args in self.evargs(e, nf, s):
                            if f and self.can_inline(f, nf):
                                nxt += [y for y, _ in self.call_fn(f, nf, x, nf.this, args, None)]
                            else:
                                nxt.append(x)
                    else:
                        nxt.append(s)
            sts = nxt
        return sts

    def unknown(self, e, f, fr, s, ov, args):
        s = s.copy()
        n = next(self.cnt)
        v = ('r', f, n)
        TT[v] = unref(e['t'])
        pt = e.get('pt', [])
        vals = []
        for i, a in enumerate(args):
            t = pt[i] if i < len(pt) else ''
            if a[0] == 'ref':
                vals.append(('ref', a[1], self.load(s, a[1], unref(t))))
            else:
                vals.append(a)
        outs = []
        for i, a in enumerate(args):
            t = pt[i] if i < len(pt) else ''
            l = None
            if t.startswith('r:') and a[0] == 'ref':
                l = a[1]
                lt = t[2:]
            elif t.startswith('p:') and a[0] == 'ad':
                l = a[1]
                lt = t[2:]
            if l is not None:
                self.clear_obj(s, l)
                for k in [k for k in s.store if k == ('base', l)]:
                    del s.store[k]
                ov2 = ('out', f, i, n)
                TT[ov2] = lt
                if lt.startswith('R:') and not is_std(lt):
                    s.store[('base', l)] = ov2
                    s.store.pop(('born', l), None)
                elif lt == 'void' or lt in ('u8', 'i8'):
                    # buffer contents
                    s.ver['[]'] = n
                    if l[0] == 'L' and l in s.store:
                        s.store[l] = ov2
                    TT[ov2] = TT.get(ov2)
                else:
                    s.store[l] = ov2
                outs.append((i, l, ov2))
            elif t.startswith('p:'):
                s.ver['[]'] = n
                for k in [k for k in s.store if k[0] == 'I' and same_buf(k, a)]:
                    del s.store[k]
        # effects of repo callees that were not expanded: fields they may assign
        mods = self.callmods(e)
        if mods:
            for k in [k for k in s.store if k[0] == 'F' and k[2] in mods]:
                del s.store[k]
            for q in mods:
                s.ver[q] = n
        s.ev = s.ev + (('call', f, e.get('u'), ov, tuple(vals), v, e.get('l'), fr.fn['file'], fr.fn['f'], tuple(outs)),)
        if self.yields is not None and self.yields(s.ev[-1]):
            # another coroutine may run here: forget everything reachable from outside this activation
            for k in [k for k in s.store if k[0] in ('F', 'I', 'G', 'D', 'X') and rootof(k)[0] in ('D', 'X', 'G')]:
                del s.store[k]
            s.ver['@all'] = n
        if f in ('exit', 'abort', '_exit', 'std::terminate', '__assert_fail', '__assert', 'quick_exit', 'std::exit', 'std::abort'):
            s.aux['_dead'] = True
            return []
        if e['t'].startswith('r:') and not e.get('virt') is None and False:
            return [(s, ('ref', ('X', v)))]
        if e['t'].startswith('R:') and not is_std(e['t']):
            return [(s, v)]
        return [(s, v)]

    def callmods(self, e):
        u = e.get('u')
        if not u:
            return frozenset()
        if u in self._mod:
            return self._mod[u]
        loc, fld, seen = set(), set(), set()
        for g in self.targets(e):
            if g['u'] in seen:
                continue
            seen.add(g['u'])
            self._asg(g['body'], loc, fld, seen)
        r = frozenset(x for x in fld if x not in ('[]', '*'))
        self._mod[u] = r
        return r


# ------------------------------------------------------------------ helpers
def is_std_value_ref(t):
    return t.startswith('r:R:std::')


def dedupe_rv(lst):
    seen, out = set(), []
    for s, v in lst:
        k = (s.key(), v)
        if k not in seen:
            seen.add(k)
            out.append((s, v))
    return out


def under(k, loc):
    """is location k inside loc (proper or equal)?"""
    if k[0] in ('born', 'base'):
        k = k[1]
    while True:
        if k == loc:
            return True
        if k[0] in ('F', 'I'):
            k = k[1]
        else:
            return False


def rebase(k, src, dst):
    if k[0] in ('born', 'base'):
        return (k[0], rebase(k[1], src, dst))
    if k == src:
        return dst
    if k[0] == 'F':
        return ('F', rebase(k[1], src, dst), k[2])
    if k[0] == 'I':
        return ('I', rebase(k[1], src, dst), k[2])
    return k


def rootof(k):
    while k[0] in ('F', 'I'):
        k = k[1]
    return k


def rootof2(k):
    if k[0] in ('born', 'base'):
        k = k[1]
    return rootof(k)


def same_buf(k, a):
    return True


def addr(l):
    if l[0] == 'D':
        return l[1]
    if l[0] == 'I' and l[1][0] == 'D':
        return add(l[1][1], l[2])
    return ('ad', l)


def deref(p):
    if p[0] == 'ad':
        return p[1]
    return ('D', p)


def derefp(p):
    """*p for pointers possibly built by pointer arithmetic"""
    if p[0] == 'ad':
        return p[1]
    if p[0] == 'lin':
        return idxsplit(p)
    if p[0] == 'itp':
        return ('D', p[1])
    return ('D', p)


def idxsplit(p):
    c, d = lin(p)
    base = [k for k, v in d.items() if v == 1 and (TT.get(k, '').startswith(('p:', 'a')) or k[0] in ('ad', 'new', 'p'))]
    base = [b for b in base if not isint(TT.get(b, '?'))] or base
    if len(base) == 1:
        b = base[0]
        d = dict(d)
        del d[b]
        return ('I', deref(b), mklin(c, d))
    return ('D', p)


def idxloc(b, i):
    if b[0] == 'ad' and b[1][0] == 'I' and b[1][1][0] != 'G':
        return ('I', b[1][1], add(b[1][2], i))
    if b[0] == 'lin':
        l = idxsplit(b)
        if l[0] == 'I':
            return ('I', l[1], add(l[2], i))
    if b[0] == 'ad':
        return ('I', b[1], i)
    return ('I', ('D', b), i)


def cat(a, b):
    pa = a[1] if a[0] == 'cat' else (a,)
    pb = b[1] if b[0] == 'cat' else (b,)
    pa = tuple(x for x in pa if x[0] != 'empty')
    pb = tuple(x for x in pb if x[0] != 'empty')
    parts = []
    for x in pa + pb:
        if parts and parts[-1][0] == 's' and x[0] == 's':
            parts[-1] = ('s', parts[-1][1] + x[1])
        else:
            parts.append(x)
    if len(parts) == 1:
        return parts[0]
    return ('cat', tuple(parts))


def notv(v):
    if v[0] == 'atomv':
        return ('atomv', v[1], not v[2])
    if v[0] == 'not0':
        v = v[1]
        a = eqatom(v, NULL)
    else:
        a = eqatom(v, NULL if is_ptr(v) else ZERO)
    if a is True or a is False:
        return I(1 if a else 0)
    return ('atomv', a, True)


def is_ptr(v):
    t = TT.get(v, '')
    return t.startswith('p:') or is_smart(t) or v[0] in ('new', 'ad', 'null', 'dyn')


def truth_atom(v):
    """value -> (atom, polarity)"""
    if v[0] == 'atomv':
        return v[1], v[2]
    if v[0] == 'not0':
        return eqatom(v[1], NULL), False
    if is_ptr(v):
        return eqatom(v, NULL), False
    return eqatom(v, ZERO), False


def eqatom(a, b):
    if a == b:
        return True
    if a[0] == 'i' and b[0] == 'i':
        return a[1] == b[1]
    if a[0] in ('i', 'null', 's') and b[0] not in ('i', 'null'):
        a, b = b, a
    if a[0] == 'lin' and b[0] in ('i', 'lin') or b[0] == 'lin':
        d = sub(a, b)
        if d[0] == 'i':
            return d[1] == 0
        c, dd = lin(d)
        # canonical sign
        f = sorted(dd.items(), key=repr)[0]
        if f[1] < 0:
            d = scale(d, -1)
            c, dd = lin(d)
        if len(dd) == 1 and next(iter(dd.values())) == 1:
            return ('eq', next(iter(dd)), I(-c))
        return ('eq', mklin(0, dd), I(-c))
    if a[0] == 'atomv' and b[0] == 'i' and b[1] == 0:
        return ('eq', a, b)
    if b[0] not in ('i', 'null') and repr(b) < repr(a):
        a, b = b, a
    return ('eq', a, b)


def tmplarg(t):
    """R:std::shared_ptr<X, ...> -> X"""
    if '<' not in t:
        return None
    i = t.index('<') + 1
    d, j = 0, i
    while j < len(t):
        c = t[j]
        if c == '<':
            d += 1
        elif c == '>':
            if d == 0:
                break
            d -= 1
        elif c == ',' and d == 0:
            break
        j += 1
    return t[i:j].strip()


def dyn_class(ov):
    if ov is None:
        return None
    if ov[0] == 'new':
        c = ov[1]
        return c[2:] if c.startswith('R:') else c
    return None


def show(t, d=0):
    """compact rendering of a term for reports"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if isinstance(k, tuple):
        return '[' + ','.join(show(x, d + 1) for x in t) + ']'
    if d > 6:
        return '..'
    if k == 'i':
        return str(t[1])
    if k == 'null':
        return 'nullptr'
    if k == 's':
        return repr(t[1])[:60]
    if k == 'p':
        return t[1]
    if k == 'this':
        return 'this'
    if k == 'lin':
        r = ' + '.join(('%s' if v == 1 else '%d*%%s' % v) % show(x, d + 1) for x, v in t[2])
        return '(' + r + (' + %d' % t[1] if t[1] else '') + ')'
    if k == 'ld':
        return show(t[1], d + 1) + ("'%s" % t[2] if t[2] else '')
    if k == 'F':
        b = show(t[1], d + 1)
        return ('' if b == '*this' else b + '.') + t[2].rsplit('::', 1)[-1]
    if k == 'D':
        return '*' + show(t[1], d + 1)
    if k == 'X':
        return show(t[1], d + 1)
    if k == 'I':
        return show(t[1], d + 1) + '[' + show(t[2], d + 1) + ']'
    if k == 'L':
        return 'v%s.%s' % (t[1], t[2])
    if k == 'G':
        return t[1]
    if k == 'r':
        return '%s()#%d' % (t[1].rsplit('::', 1)[-1], t[2])
    if k == 'out':
        return 'out%d(%s#%d)' % (t[2], t[1].rsplit('::', 1)[-1], t[3])
    if k == 'new':
        return 'new %s#%s' % (t[1], t[2])
    if k == 'eq':
        return show(t[1], d + 1) + ' == ' + show(t[2], d + 1)
    if k == 'le0':
        return show(t[1], d + 1) + ' <= 0'
    if k == 'atomv':
        return ('' if t[2] else '!') + '(' + show(t[1], d + 1) + ')'
    if k == 'op':
        return '(%s %s %s)' % (show(t[2], d + 1), t[1], show(t[3], d + 1))
    if k == 'ref':
        return '&' + show(t[1], d + 1)
    if k == 'ad':
        return '&' + show(t[1], d + 1)
    return k + '(' + ','.join(show(x, d + 1) for x in t[1:]) + ')'


def showev(ev):
    k = ev[0]
    if k == 'call':
        return 'call %s.%s(%s) -> %s  @%s:%s' % (show(ev[3]) if ev[3] else '', ev[1], ', '.join(show(a) for a in ev[4]), show(ev[5]), ev[7], ev[6])
    if k == 'st':
        return 'store %s = %s @%s:%s' % (show(ev[1]), show(ev[2]), ev[4], ev[3])
    if k == 'mut':
        return 'mut %s.%s(%s) @%s:%s' % (show(ev[2]), ev[1], ', '.join(show(a) for a in ev[3]), ev[5], ev[4])
    return k + ' ' + ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in ev[1:])


def showfacts(s):
    return ' && '.join(('' if b else '!') + '(' + show(a) + ')' for a, b in s.facts)
