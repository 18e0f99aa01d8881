"""GOP / TS relay caches and packet delivery (P07, P08)"""
import flow
from flow import ZERO, NULL, I, show, subterms
from program import AnalysisError, walk
from rules import common as C

PKT = 'sps::AVPacket'
PBS = 'sps::CacheStream::pbs'
PUBLISH = 'sps::Publisher::publish'


def flag(s, name, pb):
    t = s.truth(('eq', ('call', '%s::%s' % (PKT, name), pb), ZERO))
    return None if t is None else not t


def thisfield(loc):
    return loc[0] == 'F' and loc[1] == ('D', ('this',))


def listterm(t):
    """decompose a list value: (base, [ops]) with ops ('push', v) / ('all', container) / ('?', name)"""
    ops = []
    while t[0] == 'M':
        name, old, args = t[1], t[2], t[3]
        if name in ('push_back', 'emplace_back'):
            ops.append(('push', args[0]))
        elif name == 'insert' and len(args) == 3 and args[1][0] == 'call' and args[1][1] == 'begin' \
                and args[2] == ('call', 'end', args[1][2]) and is_end(args[0], old):
            ops.append(('all', args[1][2]))
        elif name == 'splice' and args and is_end(args[0], old):
            ops.append(('all', args[1] if len(args) > 1 else None))
        else:
            ops.append(('?', name))
        t = old
    ops.reverse()
    return t, ops


def is_end(it, cont):
    while it[0] == 'mk' and len(it[2]) == 1:
        it = it[2][0]
    return it == ('call', 'end', cont)


def p07(ctx):
    prog = ctx.prog
    ctx.rule('header', 'a packet that is an audio header, video header or metadata (PAT/PMT for the TS relay cache) is '
             'kept in its own member, which only such a packet replaces, and never enters the picture list')
    ctx.rule('restart', 'a key frame (payload-unit start for the TS relay cache) empties the picture list and becomes its first element')
    ctx.rule('append', 'any other packet is appended at the end of the picture list, and dropped from it only while no key frame is held')
    ctx.rule('publish', 'every packet put into a cache is published to the subscribers exactly once')
    ctx.rule('dump', 'a new player gets every kept header before the pictures, and the pictures complete and in order')
    ctx.rule('class', 'the packet classes are told apart by stream type and packet type as written by the producers')
    for cls, heads, restart, needkey in (
            ('sps::AVGopCacheStream', ['is_audio_sequence_header', 'is_video_sequence_header', 'is_script'], 'is_keyframe', True),
            ('sps::MepegtsCacheStream', ['is_pat', 'is_pmt'], 'is_payload_unit_start_indicator', False)):
        one_cache(ctx, cls, heads, restart, needkey)
    classes(ctx)


def one_cache(ctx, cls, heads, restart, needkey):
    prog = ctx.prog
    put = prog.fn(cls + '::put')
    pb = ('p', put['params'][0]['n'])
    mod = C.pure_methods(prog, PKT)
    mod[PUBLISH] = C.event_only()
    x = flow.Exec(prog, model=mod)
    r = x.run(put)
    ctx.see(x)
    ctx.paths += len(r)
    pbsloc = ('F', ('D', ('this',)), PBS)
    old = ('ld', pbsloc, 0)
    home = {}       # header class -> member
    F = put['file']

    def bad(rule, what, msg, s, v=None, line=None):
        ctx.fail(rule, '%s: %s' % (C.short(cls), what), F, line or put['l'], put['f'], msg, witness=C.witness(s, v))

    results = {}

    def note(rule, what, ok, msg, s):
        k = (rule, what)
        if not ok:
            bad(rule, what, msg, s)
            results[k] = False
        else:
            results.setdefault(k, True)
    nmain = 0
    for s, v in r:
        if s.truth(('eq', pb, NULL)) is True:
            eff = [e for e in s.ev if e[0] in ('st', 'mut')]
            continue
        nmain += 1
        pubs = [e for e in s.ev if e[0] == 'call' and e[1] == PUBLISH]
        okp = len(pubs) == 1 and C.vargs(pubs[0])[0] == pb
        note('publish', 'put', okp, 'a path of put publishes the packet %d times' % len(pubs), s)
        fl = {h: flag(s, h, pb) for h in heads}
        isr = flag(s, restart, pb)
        pbs = s.store.get(pbsloc, old)
        stores = {k: val for k, val in s.store.items() if thisfield(k) and val == pb}
        others = [k for k, val in s.store.items() if thisfield(k) and flow.TT.get(val, '').find('AVPacket') >= 0 and val != pb and val != ('ld', k, 0)]
        cleared = [k for k, val in s.store.items() if thisfield(k) and val == NULL]
        truehead = [h for h in heads if fl[h]]
        if len(truehead) >= 1:
            h = truehead[0]
            ok = len(stores) == 1 and pbs == old and not cleared
            note('header', h, ok, 'a header packet (%s) is not simply kept in its own member' % h, s)
            if len(stores) == 1:
                home.setdefault(h, set()).add(next(iter(stores)))
        else:
            # a header that was not excluded may be treated as a picture
            unk = [h for h in heads if fl[h] is None]
            if pbs != old:
                note('header', 'exclusion', not unk,
                     'a packet enters the picture list without %s being excluded' % ', '.join(unk), s)
            note('header', 'only headers', not stores and not cleared,
                 'a packet that is not a header replaces a kept header', s)
            base, ops = listterm(pbs)
            if isr:
                ok = base[0] == 'empty' and ops == [('push', pb)]
                note('restart', restart, ok, 'a %s packet does not restart the picture list with itself' % restart, s)
            else:
                isempty = known_empty(s, old)
                appended = base == old and ops == [('push', pb)]
                kept = pbs == old
                if isr is None and pbs != old:
                    note('restart', restart, False, 'a packet enters the picture list without being tested for %s' % restart, s)
                if needkey:
                    ok = (appended and isempty is False) or (kept and isempty is True)
                else:
                    ok = appended
                note('append', 'other packets', ok,
                     'a packet that is neither header nor %s is not appended to a started picture list '
                     '(or starts one without a key frame)' % restart, s)
    for (rule, what), ok in results.items():
        if ok:
            ctx.ok(rule, '%s: %s' % (C.short(cls), what))
    for need in [('header', h) for h in heads] + [('restart', restart), ('append', 'other packets')]:
        if need not in results:
            ctx.fail(need[0], '%s: %s' % (C.short(cls), need[1]), F, put['l'], put['f'],
                     'put has no path that treats a packet with %s' % need[1])
    mem = [next(iter(m)) for m in home.values() if len(m) == 1]
    if len(set(mem)) != len(heads):
        ctx.fail('header', C.short(cls) + ': distinct members', F, put['l'], put['f'],
                 'the header classes do not each have a member of their own')
    else:
        ctx.ok('header', C.short(cls) + ': distinct members')
    # dump
    d = prog.fn(cls + '::dump')
    x = flow.Exec(prog)
    r = x.run(d)
    ctx.see(x)
    ctx.paths += len(r)
    out = ('p', d['params'][0]['n'])
    ok, w = True, None
    for s, v in r:
        final = s.store.get(('X', out), out)
        base, ops = listterm(final)
        pushed = [o[1] for o in ops if o[0] == 'push']
        pos = [i for i, o in enumerate(ops) if o == ('all', old)]
        good = base == out and len(pos) == 1 and not any(o[0] == '?' for o in ops)
        if good:
            for m in mem:
                hv = ('ld', m, 0)
                isn = s.truth(('eq', hv, NULL))
                at = [i for i, o in enumerate(ops) if o == ('push', hv)]
                if isn is True:
                    good = good and not at
                else:
                    good = good and len(at) == 1 and at[0] < pos[0]
            good = good and len(pushed) <= len(mem)
        if s.store.get(pbsloc, old) != old:
            good = False
        if not good:
            ok, w = False, (s, v)
    what = C.short(cls) + '::dump'
    ctx.judge(ok, 'dump', what, d['file'], d['l'], d['f'],
              'a player joining may miss a kept header, get it after the pictures, or get the pictures incomplete',
              witness=C.witness(*w) if w else None)


def enumv(prog, name):
    v = prog.enums.get('sps::' + name, prog.enums.get(name))
    if v is None:
        raise AnalysisError('enumerator %s not found' % name)
    return v['v'] if isinstance(v, dict) else v


def eval_pred(ctx, name, fields):
    """constant value of predicate on a packet with the given field constants"""
    prog = ctx.prog
    f = prog.fn('%s::%s' % (PKT, name))
    st = flow.State()
    for q, c in fields.items():
        loc = ('D', ('this',))
        for part in q:
            loc = ('F', loc, part)
        st.store[loc] = I(c)
    x = flow.Exec(prog, dispatch=lambda e, ov: prog.method_in(PKT, e['u']) if ov == ('this',) else None)
    vals = set()
    for s, v in x.run(f, state=st):
        if v[0] == 'atomv':
            t = s.truth(v[1])
            v = I(1 if (t == v[2]) else 0) if t is not None else v
        vals.add(v if v[0] == 'i' else None)
    ctx.see(x)
    if len(vals) != 1 or None in vals:
        return None
    return bool(next(iter(vals))[1])


def classes(ctx):
    prog = ctx.prog
    ST = (PKT + '::stream_type',)
    PT = (PKT + '::pkt_type', 'sps::AVPacketType::pkt_type')
    FL = (PKT + '::flags',)
    V, A, S = (enumv(prog, n) for n in ('AV_STREAM_TYPE_VIDEO', 'AV_STREAM_TYPE_AUDIO', 'AV_STREAM_TYPE_SUBTITLE'))
    PSI, PES = enumv(prog, 'AV_STREAM_PSI'), enumv(prog, 'AV_STREAM_PES')
    VH, AH = enumv(prog, 'AV_VIDEO_TYPE_SEQUENCE_HEADER'), enumv(prog, 'AV_AUDIO_TYPE_SEQUENCE_HEADER')
    PAT, PMT = enumv(prog, 'TS_PROGRAM_PAT'), enumv(prog, 'TS_PROGRAM_PMT')
    TPES = enumv(prog, 'TS_PROGRAM_PES')
    spec = {
        'is_video_sequence_header': lambda st, pt, fl: st == V and pt == VH,
        'is_audio_sequence_header': lambda st, pt, fl: st == A and pt == AH,
        'is_script': lambda st, pt, fl: st == S,
        'is_keyframe': lambda st, pt, fl: st == V and (fl >> 4) & 15 == 1,
    }
    n = 0
    for name, sp in spec.items():
        ok, w = True, None
        for st in (V, A, S, PSI, PES):
            for pt in (0, 1, 2):
                for fl in (0x00, 0x01, 0x10, 0x17, 0x1c, 0x20, 0x27, 0x30, 0xaf, 0x50):
                    n += 1
                    g = eval_pred(ctx, name, {ST: st, PT: pt, FL: fl})
                    if g is None or g != sp(st, pt, fl):
                        ok, w = False, (st, pt, fl, g)
        f = prog.fn('%s::%s' % (PKT, name))
        ctx.judge(ok, 'class', name, f['file'], f['l'], f['f'],
                  'the predicate gives %s for stream_type=%s pkt_type=%s flags=%s' % ((w[3],) + w[:3] if w else ('', '', '', '')))
    # the TS relay: what the producer writes is what the cache reads back
    prod = prog.fn('sps::TsCache::on_packet')
    for name, sp in (('is_pat', lambda t, u: t == PAT), ('is_pmt', lambda t, u: t == PMT),
                     ('is_payload_unit_start_indicator', lambda t, u: t == TPES and u == 1)):
        ok, w = True, None
        for t in (TPES, PAT, PMT):
            for u in (0, 1):
                x = flow.Exec(prog)
                pr = prod['params']
                r = x.run(prod, args=[None, None, I(t), I(u)])
                ctx.see(x)
                vals = set()
                for s, v in r:
                    mk = [e for e in s.ev if e[0] == 'make' and e[1] == PKT]
                    pkts = [e[3] for e in mk]
                    putc = [e for e in s.ev if e[0] == 'call' and e[1].endswith('::put')]
                    if len(pkts) != 1 or len(putc) != 1 or C.vargs(putc[0])[0] != pkts[0]:
                        vals.add('not put')
                        continue
                    b = ('D', pkts[0])
                    st = s.store.get(('F', b, ST[0]))
                    pt = s.store.get(('F', ('F', b, PT[0]), PT[1]))
                    if pt is None:
                        # aggregate copied as a whole
                        pt = x.load(s, ('F', ('F', b, PT[0]), PT[1]), 'i32')
                    if st is None or st[0] != 'i' or pt[0] != 'i':
                        vals.add('unknown')
                        continue
                    vals.add((st[1], pt[1]))
                n += 1
                if len(vals) != 1 or isinstance(next(iter(vals)), str):
                    ok, w = False, (t, u, vals)
                    continue
                st, pt = next(iter(vals))
                g = eval_pred(ctx, name, {ST: st, PT: pt, FL: 0})
                if g is None or g != sp(t, u):
                    ok, w = False, (t, u, g)
        ctx.judge(ok, 'class', 'TsCache::on_packet / ' + name, prod['file'], prod['l'], prod['f'],
                  'a packet relayed with type %s, payload start %s is read back as %s=%s' % ((w[0], w[1], name, w[2]) if w else ('', '', '', '')))
    ctx.notes['class_cases'] = n


# ---------------------------------------------------------------------------------------------- P08
DUMPC = 'sps::AVDumpCacheStream'
SUBS = 'sps::Publisher::subs'


def segments(ev):
    """[(each event, events of that iteration, ended by break?)] of one path, innermost loops included"""
    out = []
    for i, e in enumerate(ev):
        if e[0] == 'drain':
            e = ('each', e[1], e[2], ('drain', e[3], e[4]))
        if e[0] != 'each':
            continue
        j = i + 1
        brk = False
        while j < len(ev):
            if ev[j][0] == 'brkloop' and ev[j][1] == e[1]:
                brk = True
            if ev[j][0] == 'endloop' and ev[j][1] == e[1]:
                break
            if ev[j][0] == 'loop' and ev[j][1] == e[1]:
                break
            j += 1
        out.append((e, ev[i + 1:j], brk, j >= len(ev)))
    return out


def element_terms(el):
    """what stands for the current element: the element itself, or the iterator"""
    if el[0] == 'drain':
        return {('call', 'front', el[1])}
    return {el[1]} if el[0] == 'it' else {el}


def is_element(t, els):
    """the element itself, or what the iterator points to"""
    return t in els or (t[0] == 'ld' and t[1][0] == 'D' and t[1][1] in els) or (t[0] == 'D' and t[1] in els)


def mentions(t, els):
    return any(x in els for x in subterms(t))


def subclasses_of(prog, base):
    return [c for c in prog.all_derived(base)] if hasattr(prog, 'all_derived') else []


def p08(ctx):
    prog = ctx.prog
    ctx.rule('notify', 'publishing walks the whole subscriber set from its beginning, gives the packet once to every live '
             'subscriber, removes only expired ones and is never cut short')
    ctx.rule('receive', 'an event appends the packet at the end of the viewer\'s queue and then wakes the viewer')
    ctx.rule('wake', 'the wake-up reaches every waiter of the condition and a wait is bounded by the given time')
    ctx.rule('take', 'a viewer waits only when its queue is empty, gives up only when it is still empty afterwards, and '
             'otherwise takes the whole queue in order and empties it with no coroutine switch in between')
    ctx.rule('send', 'a viewer loop sends every taken packet once, in order, and leaves the loop only when the queue stayed '
             'empty or a send failed')
    ctx.rule('feed', 'a source loop puts every packet it read successfully into the cache, once, before the next read')
    ctx.rule('join', 'a joining viewer is subscribed and given the snapshot with no coroutine switch in between')
    ctx.assume('element counts stay below 2^31')
    ctx.assume('coroutines switch only inside the libst/libav calls listed in rules/common.py (YIELDS)')
    p08_notify(ctx)
    p08_receive(ctx)
    p08_take(ctx)
    p08_send(ctx)
    p08_feed(ctx)
    p08_join(ctx)


def listpop(v):
    """the list v was before exactly one pop_front"""
    return v[2] if v and v[0] == 'M' and v[1] == 'pop_front' else None


def same_param(a, o):
    """is argument a the parameter o (by value, or by reference to it)?"""
    if a[0] == 'ref':
        return a[1] == ('X', o) or a[2] == o
    return a == o or (a[0] == 'ld' and a[1] == ('X', o))


def untr(t):
    """an element count converted to a narrower integer type (queues are far below 2^31 elements)"""
    while t[0] == 'tr' and len(t) == 3:
        t = t[2]
    return t


def known_empty(s, q):
    """is list value q known to be empty (True), not to be (False)?"""
    if s.truth(flow.eqatom(('call', 'begin', q), ('call', 'end', q))) is True:
        return True
    z = ('call', 'size', q)
    for n in (z, ('tr', 'i32', z), ('tr', 'u32', z), ('tr', 'i64', z)):
        e = s.truth(('eq', n, ZERO))
        if e is not None:
            return e
        lo, hi = s.bounds(n)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo >= 1:
            return False
    return None


def p08_notify(ctx):
    prog = ctx.prog
    f = prog.fn(PUBLISH)
    o = ('p', f['params'][0]['n'])
    x = flow.Exec(prog, model={'sps::Subscriber::on_event': C.event_only()})
    r = x.run(f)
    ctx.see(x)
    ctx.paths += len(r)
    bad = []
    neach = 0
    ends = [(s, c) for n, fn, s, c in x.iter_ends]
    for s, cont in [(s, None) for s, v in r] + ends:
        for e, seg, brk, cut in segments(s.ev):
            cv = e[2]
            if not (cv[0] == 'ld' and cv[1][0] == 'F' and cv[1][2] == SUBS):
                continue
            neach += 1
            els = element_terms(e[3])
            live = None
            for fa, b in s.facts:
                if fa[0] == 'eq' and NULL in fa[1:3]:
                    z = fa[1] if fa[2] == NULL else fa[2]
                    if is_element(z, els):
                        live = not b
            ons = [q for q in seg if q[0] == 'call' and q[1] == 'sps::Subscriber::on_event']
            erased = [q for q in seg if q[0] == 'mut' and q[1] in ('erase', 'clear')]
            if brk:
                bad.append(('the walk over the subscribers can be cut short', s))
            if live is True and not (len(ons) == 1 and mentions(ons[0][3], els) and same_param(ons[0][4][0], o)):
                bad.append(('a live subscriber is not given the packet exactly once', s))
            if live is True and erased:
                bad.append(('a live subscriber is removed', s))
            if live is None and not ons:
                bad.append(('a subscriber is passed over without knowing that it is gone', s))
            for q in erased:
                if q[1] == 'clear' or not (q[3] and q[3][0] in (els | {e[3]} | {('D', z) for z in els}) or any(mentions(z, els) for z in q[3])):
                    bad.append(('another subscriber than the current one is removed', s))
            if e[3][0] == 'it' and cont is not None and cut:
                hv = e[3][1]
                now = s.store.get(e[4])
                after = [('mr', q[1], q[7], q[3]) for q in erased]
                if now != ('next', hv) and now not in after:
                    bad.append(('the walk does not step to the next subscriber', s))
    if not neach:
        raise AnalysisError('publish: no walk over the subscriber set found')
    for s, v in r:
        if any(e[0] == 'loop' for e in s.ev) and not any(e[0] == 'endloop' for e in s.ev):
            bad.append(('the walk over the subscribers can be left early', s))
    # no path skips the walk while there are subscribers
    for s, v in r:
        if not any(e[0] == 'each' for e in s.ev):
            sub = ('ld', ('F', ('D', ('this',)), SUBS), 0)
            if known_empty(s, sub) is not True:
                bad.append(('publish returns without walking a non-empty subscriber set', s))
    msgs = {}
    for m, s in bad:
        msgs.setdefault(m, s)
    for m, s in msgs.items():
        ctx.fail('notify', 'Publisher::publish: ' + m, f['file'], f['l'], f['f'], m, witness=C.witness(s))
    if not msgs:
        ctx.ok('notify', 'Publisher::publish (%d iteration shapes)' % neach)


def p08_receive(ctx):
    prog = ctx.prog
    _, yields = C.may_yield(prog)
    f = prog.fn('sps::Subscriber::on_event')
    o = ('p', f['params'][0]['n'])
    sig = {'st_cond_broadcast', 'st_cond_signal'}

    def disp(e, ov):
        return prog.method_in(DUMPC, e['u']) if ov == ('this',) else None
    x = flow.Exec(prog, dispatch=disp, model={PUBLISH: C.event_only()})
    r = x.run(f)
    ctx.see(x)
    ctx.paths += len(r)
    pbsloc = ('F', ('D', ('this',)), PBS)
    old = ('ld', pbsloc, 0)
    bad = None
    n = 0
    for s, v in r:
        n += 1
        ov = s.store.get(('X', o), ('ld', ('X', o), 0))
        base, ops = listterm(s.store.get(pbsloc, old))
        isnull = s.truth(('eq', o, NULL)) is True
        i = [k for k, e in enumerate(s.ev) if e[0] == 'mut' and e[2] == pbsloc]
        j = [k for k, e in enumerate(s.ev) if e[0] == 'call' and e[1] in sig]
        if not isnull and not (base == old and len(ops) == 1 and ops[0][0] == 'push' and ops[0][1] == o):
            bad = ('a published packet is not appended once at the end of the viewer\'s queue', s)
        elif not j:
            bad = ('the viewer is not woken', s)
        elif i and j[-1] < i[-1]:
            bad = ('the viewer is woken before the packet is queued, and not after', s)
    ctx.judge(not bad, 'receive', 'Subscriber::on_event on a viewer queue', f['file'], f['l'], f['f'], bad[0] if bad else '',
              witness=C.witness(bad[1]) if bad else None)
    # conditions
    cl = [c for c in prog.all_derived('sps::ICondition') if prog.records.get(c)]
    k = 0
    for c in cl:
        for m, names, need in (('signal', {'st_cond_broadcast'}, 1), ('wait', {'st_cond_timedwait'}, 2)):
            g = prog.by_name.get('%s::%s' % (c, m))
            if not g:
                continue
            g = g[0]
            k += 1
            x = flow.Exec(prog)
            ok, w = True, None
            for s, v in x.run(g):
                cs = [e for e in s.ev if e[0] == 'call' and e[1] in names]
                good = len(cs) == 1 and thisfield(cs[0][4][0][1] if cs[0][4][0][0] == 'ld' else cs[0][4][0])
                if good and need == 2:
                    good = C.vargs(cs[0])[1] == ('p', g['params'][0]['n'])
                if not good:
                    ok, w = False, s
            ctx.see(x)
            ctx.judge(ok, 'wake', g['f'], g['file'], g['l'], g['f'],
                      'the %s does not reach the condition%s' % (m, ' with the given time limit' if need == 2 else ' of all waiters'),
                      witness=C.witness(w) if w else None)
    if k < 2:
        raise AnalysisError('no condition implementation found')


def p08_take(ctx):
    prog = ctx.prog
    _, yields = C.may_yield(prog)
    d = prog.fn(DUMPC + '::dump')
    out = ('p', d['params'][0]['n'])

    def disp(e, ov):
        return prog.method_in(DUMPC, e['u']) if ov == ('this',) else None
    x = flow.Exec(prog, dispatch=disp)
    x.yields = yields
    r = x.run(d)
    ctx.see(x)
    ctx.paths += len(r)
    pbsloc = ('F', ('D', ('this',)), PBS)
    bad = None
    n = 0
    for s, v in r:
        n += 1
        ys = [(i, e) for i, e in enumerate(s.ev) if yields(e)]
        ver = max([s.ver.get(PBS, 0), s.ver.get('@all', 0)])
        cur = None
        for t in list(s.eq) + [q for fa, b in s.facts for q in fa[1:] if isinstance(q, tuple)]:
            for y in subterms(t):
                if y[0] == 'ld' and y[1] == pbsloc:
                    cur = y if cur is None or y[2] > cur[2] else cur
        if cur is None:
            # decided without looking at the queue
            cur = ('ld', pbsloc, ver)

        def empty(q):
            return known_empty(s, q)
        if len(ys) > 1:
            bad = bad or ('the viewer can be suspended more than once while taking its queue', s)
        for i, e in ys:
            if e[1] != 'st_cond_timedwait':
                bad = bad or ('the viewer is suspended other than by waiting for its own condition', s)
            elif not (C.vargs(e)[1][0] == 'ld' and C.vargs(e)[1][1] == ('F', ('D', ('this',)), DUMPC + '::recv_timeout')):
                bad = bad or ('the wait is not bounded by the viewer\'s time limit', s)
            # waits only when empty
            q0 = ('ld', pbsloc, 0)
            if empty(q0) is not True:
                bad = bad or ('the viewer waits although its queue may hold packets', s)
        final = s.store.get(('X', out), out)
        base, ops = listterm(final)
        now = s.store.get(pbsloc)
        if base == out and not ops:
            # gives up
            if v == ZERO or s.truth(('eq', v, ZERO)) is True or untr(v) == ('call', 'size', cur):
                if empty(cur) is not True or not ys:
                    bad = bad or ('the viewer gives up although its queue may hold packets, or without waiting', s)
            else:
                bad = bad or ('nothing is taken but a count is reported', s)
        else:
            taken = [o for o in ops]
            good = base == out and len(taken) == 1 and taken[0][0] == 'all' and taken[0][1] is not None \
                and taken[0][1] == ('ld', pbsloc, cur[2]) and now is not None and listterm(now)[0][0] == 'empty' and not listterm(now)[1]
            if not good:
                bad = bad or ('the queue is not taken whole, in order, and emptied', s)
            elif not (untr(v) == ('call', 'size', cur) or untr(v) == ('call', 'size', taken[0][1]) or (v[0] == 'i' and v[1] != 0)):
                bad = bad or ('the reported count is not the number of packets taken', s)
    ctx.judge(not bad, 'take', 'AVDumpCacheStream::dump (%d paths)' % n, d['file'], d['l'], d['f'], bad[0] if bad else '',
              witness=C.witness(bad[1]) if bad else None)


def dump_users(prog):
    out = []
    for f in prog.funcs.values():
        if (f.get('cls') or '').startswith('sps::') and PBS.rsplit('::', 1)[0] in prog.bases(f['cls']):
            continue
        for n in walk(f['body']):
            if n.get('k') == 'call' and n.get('f') == DUMPC + '::dump':
                out.append(f)
                break
    return out


SINKS = ('write_packet', 'write', 'write_fully', 'send')


def p08_send(ctx):
    prog = ctx.prog
    users = dump_users(prog)
    if len(users) < 2:
        raise AnalysisError('%d viewer loops found (2 expected at least)' % len(users))
    for f in users:
        opq = {DUMPC + '::dump'}
        for g in prog.funcs.values():
            if g['f'].rsplit('::', 1)[-1] in SINKS:
                opq.add(g['f'])
        rel = C.Relevance(prog, funcs={DUMPC + '::dump'}, small=150)
        # a helper that sends a packet, or a list of them, is part of the loop; the writers themselves are not
        sinkers = {u for u, g in prog.funcs.items() if f['file'] == g['file']}
        x = flow.Exec(prog, inline=lambda g, fr=None: rel(g) or g['u'] in sinkers, opaque=opq)
        r = x.run(f)
        ctx.see(x)
        ctx.paths += len(r)
        bad = []
        nd = nsend = 0
        for s, kind in [(s, 'end') for s, v in r] + [(s, c) for n, fn, s, c in x.iter_ends]:
            ds = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'call' and e[1] == DUMPC + '::dump']
            for m, (i, d) in enumerate(ds):
                nd += 1
                stop = ds[m + 1][0] if m + 1 < len(ds) else len(s.ev)
                L = [o for o in d[9]]
                lst = None
                for o in L:
                    t = o[1] if isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple) else o
                    lst = t
                lst = ('out', DUMPC + '::dump', 0, d[5][2])
                rest = s.ev[i + 1:stop]
                n0 = s.truth(('eq', d[5], ZERO))
                if n0 is True or known_empty(s, lst) is True:
                    continue
                segs = [g for g in segments(rest) if g[0][2] == lst]
                if not segs:
                    if kind == 'end':
                        bad.append(('packets taken from the queue are not sent', s))
                    continue
                for e, seg, brk, cut in segs:
                    els = element_terms(e[3])
                    snd = [q for q in seg if q[0] == 'call' and q[1].rsplit('::', 1)[-1] in SINKS and any(mentions(a, els) for a in q[4])]
                    if cut and kind != 'end' and not snd:
                        bad.append(('a taken packet is skipped', s))
                        continue
                    if len(snd) != 1:
                        if not (cut and kind != 'end' and len(snd) == 1):
                            bad.append(('a taken packet is sent %d times' % len(snd), s))
                            continue
                    nsend += 1
                    q = snd[0]
                    if q[1].rsplit('::', 1)[-1] == 'write':
                        a = C.vargs(q)
                        if not (len(a) >= 2 and mentions(a[0], els) and mentions(a[1], els)):
                            bad.append(('a taken packet is not sent whole', s))
                    res = s.truth(('eq', q[5], ZERO))
                    if brk and res is not False:
                        bad.append(('sending stops although the last send succeeded', s))
                    if kind is True and cut and res is not True:
                        bad.append(('sending goes on after a failed send', s))
                    if e[3][0] == 'drain' and kind is True and cut:
                        if listpop(s.store.get(e[3][2])) != e[3][1]:
                            bad.append(('the packets are not taken one by one', s))
                    if e[3][0] == 'it' and cut and kind != 'end':
                        if e[4] in s.store and s.store[e[4]] != ('next', e[3][1]):
                            bad.append(('the packets are not walked one by one', s))
        # ways out
        for s, v in r:
            ds = [e for e in s.ev if e[0] == 'call' and e[1] == DUMPC + '::dump']
            if not ds:
                continue
            d = ds[-1]
            lst = ('out', DUMPC + '::dump', 0, d[5][2])
            if s.truth(('eq', d[5], ZERO)) is True or known_empty(s, lst) is True:
                continue
            snd = [q for q in s.ev if q[0] == 'call' and q[1].rsplit('::', 1)[-1] in SINKS]
            if not any(s.truth(('eq', q[5], ZERO)) is False for q in snd):
                bad.append(('the viewer loop ends although nothing failed', s))
        if not nd or not nsend:
            raise AnalysisError('%s: no send of taken packets found' % f['f'])
        msgs = {}
        for m, s in bad:
            msgs.setdefault(m, s)
        for m, s in msgs.items():
            ctx.fail('send', '%s: %s' % (C.short(f['f']), m), f['file'], f['l'], f['f'], m, witness=C.witness(s))
        if not msgs:
            ctx.ok('send', C.short(f['f']))


def p08_feed(ctx):
    prog = ctx.prog
    PUT = 'sps::ICacheStream::put'
    users = []
    for f in prog.funcs.values():
        cls = f.get('cls') or ''
        if 'sps::ICacheStream' in (prog.bases(cls) if cls else []):
            continue
        names = {n.get('f') for n in walk(f['body']) if n.get('k') == 'call'}
        if PUT in names and any((n or '').endswith('::read_packet') for n in names):
            users.append(f)
    # also: functions whose reads and puts sit in helpers are found through their callers
    if len(users) < 2:
        up = C.callers(prog)
        for f in prog.funcs.values():
            names = {n.get('f') for n in walk(f['body']) if n.get('k') == 'call'}
            if any((n or '').endswith('::read_packet') for n in names):
                puts = any(PUT in {n.get('f') for n in walk(g['body']) if n.get('k') == 'call'}
                           for _, gs, _ in C.callees(prog, f) for g in gs if g['file'] == f['file'])
                if puts and f not in users:
                    users.append(f)
    if len(users) < 2:
        raise AnalysisError('%d source loops found (2 expected at least)' % len(users))
    for f in users:
        opq = {PUT} | {g['f'] for g in prog.funcs.values() if g['f'].rsplit('::', 1)[-1] in ('read_packet', 'read_header')}
        rel = C.Relevance(prog, small=150)
        loc = {u for u, g in prog.funcs.items() if f['file'] == g['file'] and g['f'].rsplit('::', 1)[0] == f['f'].rsplit('::', 1)[0]}
        x = flow.Exec(prog, inline=lambda g, fr=None: rel(g) or g['u'] in loc, opaque=opq,
                      model={PUT: C.event_only()})
        r = x.run(f)
        ctx.see(x)
        ctx.paths += len(r)
        bad = []
        nr = 0
        for s, kind in [(s, 'end') for s, v in r] + [(s, c) for n, fn, s, c in x.iter_ends]:
            rd = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'call' and e[1].endswith('::read_packet')]
            puts = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'call' and e[1].endswith('::put')]
            for m, (i, e) in enumerate(rd):
                nr += 1
                stop = rd[m + 1][0] if m + 1 < len(rd) else len(s.ev)
                mine = [q for j, q in puts if i < j < stop]
                res = s.truth(('eq', e[5], ZERO))
                pk = ('out', e[1], 0, e[5][2])
                if res is False:
                    if mine:
                        bad.append(('a packet is put although the read failed', s))
                    if kind is True:
                        bad.append(('reading goes on after a failed read', s))
                elif not (len(mine) == 1 and C.vargs(mine[0])[0] == pk):
                    bad.append(('a packet that was read is not put exactly once', s))
            if kind == 'end' and rd:
                last = rd[-1][1]
                if s.truth(('eq', last[5], ZERO)) is not False:
                    # left by request only: a flag of the object was read as false after the put
                    st = [fa for fa, b in s.facts if fa[0] == 'eq' and b and fa[1][0] == 'ld' and fa[1][1][0] == 'F' and fa[2] == ZERO]
                    if not st:
                        bad.append(('the source loop ends although the read succeeded and nobody stopped it', s))
        if not nr:
            raise AnalysisError('%s: no read found' % f['f'])
        msgs = {}
        for m, s in bad:
            msgs.setdefault(m, s)
        for m, s in msgs.items():
            ctx.fail('feed', '%s: %s' % (C.short(f['f']), m), f['file'], f['l'], f['f'], m, witness=C.witness(s))
        if not msgs:
            ctx.ok('feed', C.short(f['f']))


def p08_join(ctx):
    prog = ctx.prog
    ysub, yields = C.may_yield(prog)
    f = prog.fn('sps::StreamCache::get_client_streamcache')
    # classes that are ever registered
    reg = set()
    R = C.Registry(prog, 'sps::StreamCache')
    for g in list(prog.funcs.values()):
        if g['f'].startswith('sps::StreamCache::') or g.get('cls') == 'sps::StreamCache':
            x = flow.Exec(prog, inline=C.Relevance(prog, fields=R.q, small=200), model={'sps::ICacheStream::dump': C.event_only()})
            for s, v in x.run(g):
                for i, op, key, val in R.ops(s.ev):
                    if op == 'insert':
                        reg |= {e[1] for e in s.ev if e[0] == 'make' and e[3] == val}
    reg.discard(DUMPC)
    if len(reg) < 2:
        raise AnalysisError('classes registered as live streams not found (%s)' % sorted(reg))
    for c in sorted(reg):
        d = prog.by_name.get(c + '::dump') or prog.by_name['sps::CacheStream::dump']
        ctx.judge(d[0]['u'] not in ysub, 'join', 'snapshot of %s does not switch coroutines' % C.short(c), d[0]['file'], d[0]['l'], d[0]['f'],
                  'taking the snapshot may switch coroutines: packets published meanwhile would be lost or doubled for the joining viewer')
    DUMP = 'sps::ICacheStream::dump'
    x = flow.Exec(prog, opaque={DUMP}, model={DUMP: C.event_only(), 'sps::Publisher::sub': C.event_only()})
    r = x.run(f)
    ctx.see(x)
    ctx.paths += len(r)
    bad = None
    nok = 0
    for s, v in r:
        if v == NULL:
            continue
        nok += 1
        subs = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'call' and e[1] == 'sps::Publisher::sub']
        dumps = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'call' and e[1] == DUMP]
        if len(subs) != 1 or len(dumps) != 1:
            bad = ('a joining viewer is subscribed %d times and given %d snapshots' % (len(subs), len(dumps)), s)
            continue
        (i, a), (j, b) = subs[0], dumps[0]
        if not (C.vargs(a)[0] == v and a[3] == b[3]):
            bad = ('the viewer returned is not the one subscribed, or the snapshot is of another stream', s)
        to = b[4][0]
        if not (to[0] == 'ref' and to[1] == ('F', ('D', v), PBS)):
            bad = ('the snapshot does not go into the viewer\'s queue', s)
        lo, hi = min(i, j), max(i, j)
        if any(yields(e) for e in s.ev[lo + 1:hi]):
            bad = ('coroutines may switch between subscribing and the snapshot', s)
    if not nok:
        raise AnalysisError('get_client_streamcache: no path returns a viewer')
    ctx.judge(not bad, 'join', 'StreamCache::get_client_streamcache', f['file'], f['l'], f['f'], bad[0] if bad else '',
              witness=C.witness(bad[1]) if bad else None)
