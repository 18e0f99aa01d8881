"""live-stream registry: who may register, who removes, who subscribes (P04, P05, P06)"""
import flow
from flow import ZERO, NULL, show, subterms
from program import AnalysisError, walk
from rules import common as C

REG = 'sps::StreamCache'
CONFROLE = 'sps::HostConfCtx::role'
CONFFMT = 'sps::HostConfCtx::edge_avformat'
EXT = 'sps::RequestUrl::ext'

_cache = {}
SUBS = 'sps::Publisher::subs'


def str_value(prog, t):
    """string constant a term stands for"""
    if t[0] == 's':
        return t[1]
    if t[0] == 'ld' and t[1][0] == 'G':
        g = prog.globals.get(t[1][1])
        i = (g or {}).get('init')
        while isinstance(i, dict) and i.get('k') != 'str' and i.get('e'):
            i = i['e']
        if isinstance(i, dict) and i.get('k') == 'str':
            # assigned nowhere else
            return i['v']
    if t[0] == 'mk' and t[2]:
        return str_value(prog, t[2][0])
    if t[0] == 'cstr':
        return str_value(prog, t[1])
    return None


def is_field(t, q):
    return t[0] == 'ld' and t[1][0] == 'F' and t[1][2] == q


def eq_facts(s):
    for a, b in s.facts:
        if a[0] == 'eq':
            yield a[1], a[2], b


def role_is_source(prog, s):
    for a, b, v in eq_facts(s):
        for x, y in ((a, b), (b, a)):
            if v and is_field(x, CONFROLE) and str_value(prog, y) == 'source':
                return True
    return False


def format_admitted(prog, s):
    for a, b, v in eq_facts(s):
        for x, y in ((a, b), (b, a)):
            if v and is_field(x, CONFFMT) and (str_value(prog, y) == 'all' or is_field(y, EXT)):
                return True
    return False


def model(ctx):
    if 'm' in _cache:
        return _cache['m']
    prog = ctx.prog
    reg = C.Registry(prog, REG)
    isroot = C.is_handler(prog)
    seeds = [u for u, f in prog.funcs.items()
             if any(n.get('k') == 'mem' and n.get('q') in reg.q for n in walk(f['body']))]
    if len(seeds) < 3:
        raise AnalysisError('stream registry accessors not found')
    roots = C.entry_roots(prog, seeds, isroot)
    runs = []
    rel = C.Relevance(prog, fields=reg.q | {SUBS, CONFROLE, CONFFMT})
    for f in roots:
        x = flow.Exec(prog, inline=rel)
        r = x.run(f)
        ctx.see(x)
        ctx.paths += len(r)
        runs.append((f, x, r))
    _cache['m'] = (reg, runs)
    return _cache['m']


def lastline(ev):
    return C.line_of(ev)


def p04(ctx):
    prog = ctx.prog
    reg, runs = model(ctx)
    _, yields = C.may_yield(prog)
    ctx.rule('unique', 'every registration of a live stream is preceded on its path by a lookup of the same name '
             'that found nothing, with no coroutine switch in between')
    ctx.rule('role', 'every registration made for a remote publisher is on a path where the host role equals "source"')
    ctx.rule('format', 'a registration whose media format comes from the requested extension is on a path where the '
             'configured format is "all" or equals that extension')
    ctx.assume('coroutines switch only inside the libst/libav calls listed in rules/common.py (YIELDS)')
    n = 0
    for f, x, r in runs:
        seen = {}
        for s, v in r:
            ops = reg.ops(s.ev)
            for i, op, key, val in ops:
                if op != 'insert':
                    continue
                n += 1
                file, line, func = C.line_of(s.ev[i])
                where = (f['f'], show(key) if key else '?')
                good = False
                for j, o2, k2, t in ops:
                    if j < i and o2 == 'lookup' and k2 == key and reg.absent(s, t):
                        if not any(yields(e) for e in s.ev[j:i]):
                            good = True
                if not good:
                    # companion entry: constant prefix + a name that was itself checked and registered here
                    for j, o2, k2, t in ops:
                        if j < i and o2 == 'insert' and companion(key, k2):
                            for m, o3, k3, t3 in ops:
                                if m < j and o3 == 'lookup' and k3 == k2 and reg.absent(s, t3) \
                                        and not any(yields(e) for e in s.ev[m:i]):
                                    good = True
                site = creation_site(s.ev, i, f)
                a = seen.setdefault(('unique', site), [True, None])
                if not good:
                    a[0], a[1] = False, (s, v, file, line)
                pull = is_pull(prog, f)
                if not pull:
                    a = seen.setdefault(('role', site), [True, None])
                    if not role_is_source(prog, s):
                        a[0], a[1] = False, (s, v, file, line)
                    if f['f'].startswith('sps::StreamHandler::'):
                        a = seen.setdefault(('format', site), [True, None])
                        if not format_admitted(prog, s):
                            a[0], a[1] = False, (s, v, file, line)
        msgs = {'unique': 'a live stream is registered without a preceding lookup of the same name that found '
                          'nothing (or with a coroutine switch in between): a second source can replace a live one',
                'role': 'a live stream is registered for a remote publisher although the host role was not '
                        'established to be "source"',
                'format': 'a live stream is registered although the configured publish format was not matched '
                          'against the requested one'}
        for (rule, site), (ok, w) in sorted(seen.items(), key=repr):
            what = '%s in %s' % (site, C.short(f['f']))
            if ok:
                ctx.ok(rule, what)
            else:
                s, v, file, line = w
                ctx.fail(rule, what, file, line, f['f'], msgs[rule], witness=C.witness(s, v))
    if n == 0:
        raise AnalysisError('no registration of a live stream found')
    # the refusal itself
    ctx.rule('refuse', 'a handler path on which a live source was found registers nothing and returns an error')
    for f, x, r in runs:
        if is_pull(prog, f):
            continue
        if not any(op == 'insert' for s, v in r for _, op, _, _ in reg.ops(s.ev)):
            continue
        hit = 0
        bad = None
        for s, v in r:
            ops = reg.ops(s.ev)
            ins = any(o[1] == 'insert' for o in ops)
            sub = any(e[0] == 'mut' and e[2][0] == 'F' and e[2][2].endswith('Publisher::subs') for e in s.ev)
            if not ins and not sub and v == ZERO:
                bad = (s, v)
            if not ins:
                hit += 1
        if bad:
            ctx.fail('refuse', C.short(f['f']), f['file'], f['l'], f['f'],
                     'a refused publisher/player is reported as success', witness=C.witness(*bad))
        elif hit:
            ctx.ok('refuse', C.short(f['f']))


def companion(key, base):
    kp = key[1] if key[0] == 'cat' else (key,)
    bp = base[1] if base[0] == 'cat' else (base,)
    return len(kp) == len(bp) + 1 and kp[0][0] == 's' and tuple(kp[1:]) == tuple(bp)


def creation_site(ev, i, f):
    """kind of registration: class of the object registered"""
    for e in reversed(ev[:i]):
        if e[0] == 'make':
            return 'registration of ' + C.short(e[1])
    return 'registration'


def is_pull(prog, f):
    """coroutine entry (a pull this process started itself) rather than a handler of a client connection"""
    return not f['params']


def p05(ctx):
    prog = ctx.prog
    reg, runs = model(ctx)
    ctx.rule('release', 'every path that registers a live stream removes the same name before the handler returns')
    ctx.rule('loop-end', 'the loop that feeds a registered stream does not go on after its source failed to deliver')
    ctx.rule('own', 'a path removes a name only if it registered that name itself, or holds the owner reference that '
             'is set only together with the registration and is cleared with the removal')
    n = 0
    for f, x, r in runs:
        st = {}
        for s, v in r:
            ops = reg.ops(s.ev)
            for i, op, key, val in ops:
                if op == 'insert':
                    n += 1
                    site = creation_site(s.ev, i, f)
                    good = any(j > i and o == 'erase' and k == key for j, o, k, _ in ops) or \
                        any(j > i and o == 'clear' for j, o, _, _ in ops)
                    re_ins = [j for j, o, k, _ in ops if j > i and o == 'insert' and k == key]
                    a = st.setdefault(site, [True, None])
                    if not good:
                        a[0], a[1] = False, (s, v, C.line_of(s.ev[i]))
        for site, (ok, w) in sorted(st.items()):
            what = '%s in %s' % (site, C.short(f['f']))
            if ok:
                ctx.ok('release', what)
            else:
                s, v, (file, line, func) = w
                ctx.fail('release', what, file, line, f['f'],
                         'a path leaves the handler with the live stream still registered: players would attach to a '
                         'dead stream and the name could never be published again', witness=C.witness(s, v))
        # loops
        bad, cnt = None, 0
        for node, fn, s, cont in x.iter_ends:
            if not cont:
                continue
            if not any(o[1] == 'insert' for o in reg.ops(s.ev)):
                continue
            k = max((i for i, e in enumerate(s.ev) if e[0] == 'loop'), default=0)
            for e in s.ev[k:]:
                if e[0] == 'call' and e[1].endswith('::read_packet'):
                    cnt += 1
                    if s.truth(('eq', e[5], ZERO)) is not True:
                        bad = (s, e)
        if bad:
            s, e = bad
            file, line, func = C.line_of(e)
            ctx.fail('loop-end', C.short(f['f']), file, line, func,
                     'the feeding loop goes on although reading a packet from the source may have failed', witness=C.witness(s))
        elif cnt:
            ctx.ok('loop-end', '%s (%d iteration paths)' % (C.short(f['f']), cnt))
    if n == 0:
        raise AnalysisError('no registration of a live stream found')
    # ownership of removals
    for f, x, r in runs:
        st = {}
        for s, v in r:
            ops = reg.ops(s.ev)
            for i, op, key, val in ops:
                if op != 'erase':
                    continue
                a = st.setdefault('removal', [True, None, None])
                if any(j < i and o == 'insert' and k == key for j, o, k, _ in ops):
                    # and not twice
                    continue
                g = owner_guard(s, i, key)
                if g is None:
                    a[0], a[1] = False, (s, v, C.line_of(s.ev[i]))
                    a[2] = 'a path removes a live stream it did not register itself'
                    continue
                why = owner_ok(ctx, x, reg, s, i, g)
                if why:
                    a[0], a[1], a[2] = False, (s, v, C.line_of(s.ev[i])), why
        for site, (ok, w, why) in sorted(st.items()):
            what = '%s in %s' % (site, C.short(f['f']))
            if ok:
                ctx.ok('own', what)
            else:
                s, v, (file, line, func) = w
                ctx.fail('own', what, file, line, f['f'], why, witness=C.witness(s, v))


def owner_guard(s, i, key):
    """member of this that is known non-null on the path"""
    for a, b in s.facts:
        if a[0] == 'eq' and a[2] == NULL and not b and a[1][0] == 'ld' and a[1][1][0] == 'F' \
                and a[1][1][1] in (('D', ('this',)), ):
            return a[1][1]
    return None


def owner_ok(ctx, x, reg, s, i, g):
    # cleared on this path after the removal (or before, having been read)
    v = s.store.get(g)
    if v != NULL:
        return 'the owner reference %s survives the removal: a later stop would remove a stream someone else registered' % show(g)
    # stored only as the registered object
    for f2, x2, r2 in _cache['m'][1]:
        for s2, v2 in r2:
            for j, e in enumerate(s2.ev):
                if e[0] == 'st' and e[1][0] == 'F' and e[1][2] == g[2] and e[2] != NULL:
                    ins = [o for o in reg.ops(s2.ev) if o[1] == 'insert' and o[0] < j and o[3] == e[2]]
                    if not ins:
                        return 'the owner reference %s is set to something that was not registered' % show(g)
    return None


SUBS = 'sps::Publisher::subs'


def p06(ctx):
    prog = ctx.prog
    reg, runs = model(ctx)
    _, yields = C.may_yield(prog)
    ctx.rule('unsubscribe', 'every path that adds a subscriber to a stream removes the same subscriber from the same '
             'stream object before the handler returns')
    ctx.rule('same-stream', 'between looking up the stream and subscribing to it there is no coroutine switch, so the '
             'object unsubscribed from is the one subscribed to')
    ctx.rule('null', 'a player handler uses the stream and its subscription only where both are known to exist')
    n = 0
    for f, x, r in runs:
        st = {}
        for s, v in r:
            subs = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'mut' and e[2][0] == 'F' and e[2][2] == SUBS]
            for i, e in subs:
                if e[1] not in ('insert', 'emplace', 'push_back'):
                    continue
                n += 1
                off = [(j, e2) for j, e2 in subs if j > i and e2[1] == 'erase' and e2[3][:1] == e[3][:1]]
                a = st.setdefault('unsubscribe', [True, None, ''])
                same = [j for j, e2 in off if e2[2] == e[2]]
                if not same:
                    a[0], a[1] = False, (s, v, C.line_of(e))
                    a[2] = 'a path leaves the player handler with its subscription still in place' if not off else \
                        'the player unsubscribes from a different stream object than the one it subscribed to'
                a = st.setdefault('same-stream', [True, None, ''])
                lk = [j for j, o, k, t in reg.ops(s.ev) if o == 'lookup' and j < i and any(y == t for y in subterms(e[2]))]
                if same and lk and any(yields(z) for z in s.ev[min(lk):i]):
                    # only matters when the object unsubscribed from came from an earlier lookup
                    if len(lk) > 1:
                        a[0], a[1] = False, (s, v, C.line_of(e))
                        a[2] = 'a coroutine switch separates the lookup whose object is unsubscribed from the lookup ' \
                               'whose object is subscribed to'
        for rule, (ok, w, why) in sorted(st.items()):
            what = C.short(f['f'])
            if ok:
                ctx.ok(rule, what)
            else:
                s, v, (file, line, func) = w
                ctx.fail(rule, what, file, line, f['f'], why, witness=C.witness(s, v))
    if n == 0:
        raise AnalysisError('no subscription found')
