"""P15: configuration: every option reaches its setting, nothing malformed is accepted"""
import flow
from flow import ZERO, NULL, I, show, subterms
from program import AnalysisError, walk
from rules import common as C

OPT = 'sps::ConfigOption'
NAME, TYPE, DEF, OFF = OPT + '::name', OPT + '::type', OPT + '::default_val', OPT + '::offset'
MOD = 'sps::IModule'
OPTS, CONF = MOD + '::opts', MOD + '::conf'
SUBMODULE = 'CONF_OPT_TYPE_SUBMODULE'
EOF = 'sps::ERROR_IO_EOF'

# what a member must be for an option type: (kinds of type, bytes)
KIND = {'CONF_OPT_TYPE_INT': (('i32', 'u32'), 4), 'CONF_OPT_TYPE_INT64': (('i64', 'u64'), 8), 'CONF_OPT_TYPE_UINT64': (('i64', 'u64'), 8),
        'CONF_OPT_TYPE_DOUBLE': (('f64',), 8), 'CONF_OPT_TYPE_FLOAT': (('f32',), 4), 'CONF_OPT_TYPE_BOOL': (('bool', 'b', 'i1', 'u1'), 1),
        'CONF_OPT_TYPE_CSTRING': (('p:i8',), 8), 'CONF_OPT_TYPE_STRING': (('R:std::string', 'R:std::basic_string'), 32)}


def strip(e):
    while e and e.get('k') == 'cast':
        e = e['e']
    return e


def text(e):
    """literal text, None (null) or '?'"""
    e = strip(e)
    if e is None or e['k'] in ('null', 'zero'):
        return None
    if e['k'] == 'str':
        return e['v']
    if e['k'] == 'ilist' and e['args']:
        return text(e['args'][0])
    return '?'


def entries(g):
    init = g.get('init')
    if not init or init.get('k') != 'ilist':
        raise AnalysisError('%s: table not readable' % g['g'])
    out = []
    for a in init['args']:
        a = strip(a)
        v = a.get('args', []) if a['k'] == 'ilist' else []
        if a['k'] in ('zero',) or not v:
            out.append(dict(l=a.get('l'), name=None, off=None, rec=None, field=None, type=None, default=None))
            continue
        off = next((n for n in walk(v[2]) if n.get('k') == 'offsetof'), None) if len(v) > 2 else None
        ty = strip(v[3]) if len(v) > 3 else None
        en = (ty.get('en') or '').rsplit('::', 1)[-1] if ty else None
        out.append(dict(l=v[0].get('l') or a.get('l'), name=text(v[0]), off=v[2].get('cv') if len(v) > 2 else None,
                        rec=off['rec'][2:] if off else None, field=off['field'] if off else None, type=en,
                        default=text(v[4]) if len(v) > 4 else None, args=v))
    return out


def field_of(prog, cls, q):
    for c in [cls] + list(prog.bases(cls)):
        for fl in (prog.records.get(c) or {}).get('fields', []):
            if fl['q'] == q:
                return fl
    return None


def integral(t):
    t = t.strip()
    if t[:1] in '+-':
        t = t[1:]
    return t.isdigit()


def number(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


def entry(t):
    """offset of a table entry from the start of the table, from a location or pointer"""
    base = lambda x: x[0] == 'ld' and x[1][0] == 'F' and x[1][2] == OPTS
    if t[0] == 'I' and t[1][0] == 'D' and base(t[1][1]):
        return t[2]
    if t[0] == 'I' and t[1][0] == 'D':
        b = entry(('D', t[1][1]))
        return flow.add(b, t[2]) if b is not None else None
    if t[0] in ('D', 'ad'):
        t = t[1]
        if t[0] in ('I', 'D'):
            return entry(t)
    if base(t):
        return ZERO
    if t[0] == 'hv' and 'ConfigOption' in str(flow.TT.get(t, '')):
        return t      # a pointer that walks the table
    if t[0] == 'lin':
        for x in subterms(t):
            if base(x):
                r = flow.sub(t, x)
                if not any(base(y) for y in subterms(r)):
                    return r
        if any(x[0] == 'hv' and 'ConfigOption' in str(flow.TT.get(x, '')) for x in subterms(t)):
            return t
    return None


def entry_facts(s, q):
    """[(index term, other side, truth)] of facts about member q of a table entry"""
    out = []
    for a, b in s.facts:
        if a[0] != 'eq':
            continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x[0] == 'ld' and x[1][0] == 'F' and x[1][2] == q:
                i = entry(x[1][1])
                if i is not None:
                    out.append((i, y, b))
    return out


def p15(ctx):
    prog = ctx.prog
    enums = {}
    tables = {g['g']: (g, entries(g)) for g in prog.globals.values() if g.get('t', '').endswith('R:' + OPT) or _is_table(g)}
    if not tables:
        raise AnalysisError('no option tables')
    for g, es in tables.values():
        for e in es:
            for n in (walk(e['args'][3]) if e.get('args') and len(e['args']) > 3 else ()):
                if n.get('en'):
                    enums[n['en'].rsplit('::', 1)[-1]] = n.get('v', n.get('cv'))
    check_tables(ctx, prog, tables)
    owners = check_modules(ctx, prog, tables)
    check_set(ctx, prog, tables)
    check_default(ctx, prog)
    check_init(ctx, prog)
    check_parse(ctx, prog)
    ctx.notes['tables'] = {k: len(v[1]) for k, v in sorted(tables.items())}
    ctx.notes['modules'] = owners


def _is_table(g):
    i = g.get('init')
    return bool(i) and i.get('k') == 'ilist' and any(strip(a).get('t') == 'R:' + OPT for a in i.get('args', []))


# ------------------------------------------------------------------ tables
def check_tables(ctx, prog, tables):
    R = 'table'
    ctx.rule(R, 'every option table ends with a nameless entry and has none before its end; two names never share a member; an option '
             'does not carry the name of another option\'s member; the member has the type and size the option writes; the default is '
             'given and can be read as that type')
    for name, (g, es) in sorted(tables.items()):
        file = g['file']
        ctx.judge(bool(es) and es[-1]['name'] is None, R, '%s is terminated' % name, file, g.get('l', 0), name,
                  'the table has no nameless last entry: reading it runs past its end', key='table|%s|end' % name)
        for e in es[:-1]:
            ctx.judge(e['name'] not in (None, ''), R, '%s: entry at line %s is named' % (name, e['l']), file, e['l'], name,
                      'a nameless entry hides the options behind it', key='table|%s|hidden' % name)
        rows = [e for e in es if e['name']]
        byname = {}
        for e in rows:
            byname.setdefault(e['name'], []).append(e)
        fields = {}
        for e in rows:
            what = '%s: option %s' % (name, e['name'])
            k = 'table|%s|%s|' % (name, e['name'])
            same = byname[e['name']]
            ctx.judge(all((x['field'], x['type'], x['default']) == (e['field'], e['type'], e['default']) for x in same), R,
                      what + ' has one meaning', file, e['l'], name, 'the option is listed twice with different meanings', key=k + 'twice')
            if e['type'] == SUBMODULE:
                continue
            if e['type'] not in KIND:
                ctx.fail(R, what + ' has a known type', file, e['l'], name, 'option type %s cannot be set' % e['type'], key=k + 'type')
                continue
            if e['field'] is None:
                ctx.fail(R, what + ' names its member', file, e['l'], name, 'the offset is not that of a member', key=k + 'member')
                continue
            other = fields.setdefault(e['field'], e['name'])
            ctx.judge(other == e['name'], R, what + ' has a member of its own', file, e['l'], name,
                      'writes %s, the member of option %s' % (e['field'], other), key=k + 'share')
            last = e['field'].rsplit('::', 1)[-1]
            ctx.judge(last == e['name'] or last not in byname, R, what + ' writes the member of its name', file, e['l'], name,
                      'writes %s, which has the name of another option' % e['field'], key=k + 'swap')
            fl = field_of(prog, e['rec'], e['field'])
            kinds, size = KIND[e['type']]
            if fl is None:
                raise AnalysisError('%s: member %s not found' % (name, e['field']))
            t = fl['t']
            ctx.judge(e['off'] == fl.get('off', e['off']), R, what + ' is at the offset of its member', file, e['l'], name,
                      'offset %s, but %s is at %s' % (e['off'], e['field'], fl.get('off')), key=k + 'offset')
            okk = any(t == x or (x.startswith('R:') and t.startswith(x)) for x in kinds)
            ctx.judge(okk and fl.get('sz', size) == size, R, what + ' fits its member', file, e['l'], name,
                      '%s of %s bytes is written as %s (%d bytes)' % (e['field'], fl.get('sz'), e['type'], size), key=k + 'fit')
            d = e['default']
            if d is None or d == '?':
                ctx.fail(R, what + ' has a default', file, e['l'], name, 'no default text (a null one is dereferenced)', key=k + 'default')
                continue
            okd = (integral(d) if 'INT' in e['type'] else number(d) if e['type'].endswith(('DOUBLE', 'FLOAT')) else
                   d in ('on', 'off') if e['type'].endswith('BOOL') else True)
            ctx.judge(okd, R, what + ' has a default of its type', file, e['l'], name, 'default "%s" does not read as %s' % (d, e['type']),
                      key=k + 'deftype')


# ------------------------------------------------------------------ modules and their configuration objects
def ptr_class(t):
    """class pointed to by a smart pointer type"""
    a = flow.tmplarg(t)
    if a is None:
        return None
    return a[2:] if a.startswith('R:') else a


def check_modules(ctx, prog, tables):
    R = 'object'
    ctx.rule(R, 'the configuration object a module creates is of the class its option table\'s offsets were computed for, and is only '
             'ever viewed as that class (or a base of it)')
    made = {}     # module class -> (table, ctx class)
    for c in sorted(prog.all_derived(MOD)):
        if c == MOD or c not in prog.records:
            continue
        tbl = set()
        for f in prog.ctors(c):
            if f.get('implicit') or not f.get('inits'):
                continue
            for n in walk(f.get('inits')):
                if n.get('k') in ('var', 'gvar') and (n.get('g') or n.get('q') or n.get('n')) in tables:
                    tbl.add(n.get('g') or n.get('q') or n.get('n'))
        if not tbl:
            continue
        f = method(prog, c, 'create_conf')
        if f is None:
            ctx.fail(R, '%s creates a configuration object' % c, '', 0, c, 'no create_conf', key='object|%s|none' % c)
            continue
        x = flow.Exec(prog)
        kinds = set()
        for s, v in x.run(f):
            ctx.paths += 1
            cl = flow.dyn_class(v)
            if cl is None:
                cl = made_class(s, v)
            kinds.add(cl)
        ctx.see(x)
        for t in sorted(tbl):
            recs = {e['rec'] for e in tables[t][1] if e['rec']}
            for k in kinds:
                ok = k is not None and all(k == r or r in prog.bases(k) for r in recs)
                ctx.judge(ok, R, '%s: object of class %s for table %s' % (c, k, t), f['file'], f['l'], f['f'],
                          'creates a %s, but the offsets of %s are those of %s' % (k, t, sorted(recs)), key='object|%s|%s' % (c, t))
        made[c] = (sorted(tbl), sorted(str(k) for k in kinds))
    if not made:
        raise AnalysisError('no module with an option table')
    used = {t for v in made.values() for t in v[0]}
    ctx.notes['unused tables'] = sorted(set(tables) - used)
    # views of the object
    n = 0
    for f in prog.funcs.values():
        for e in walk(f.get('body')):
            if e.get('k') != 'call' or not str(e.get('f', '')).startswith('std::static_pointer_cast'):
                continue
            a = next((m for m in walk(e.get('args', [])) if m.get('k') == 'mem' and (m.get('q') or m.get('f')) == CONF), None)
            if a is None:
                continue
            n += 1
            to = ptr_class(e['t'])
            owner = static_class(a, f)
            cands = [made[c] for c in made if owner and (c == owner or owner in prog.bases(c))]
            ok = all(any(to == k or to in prog.bases(k) for k in v[1]) for v in cands) and bool(cands)
            ctx.judge(ok, R, '%s views the object of %s as %s' % (f['f'], owner, to), f['file'], e.get('l', 0), f['f'],
                      'the configuration object of %s is a %s, not a %s' % (owner, [v[1] for v in cands], to), key='object|view|%s|%s' % (f['f'], to))
    ctx.notes['views'] = n
    return {k: dict(table=v[0], object=v[1]) for k, v in made.items()}


def made_class(s, v):
    if v[0] in ('new', 'mk', 'obj'):
        for x in v[1:]:
            if isinstance(x, str) and '::' in x:
                return x
    return None


def method(prog, cls, name):
    for c in [cls] + list(prog.bases(cls)):
        for f in prog.funcs.values():
            if f.get('cls') == c and f['f'].rsplit('::', 1)[-1] == name and f.get('body'):
                return f
    return None


def static_class(m, f):
    """class of the object whose member is read"""
    b = m.get('b') or m.get('e') or m.get('obj')
    if b is None or strip(b)['k'] == 'this':
        return f.get('cls')
    t = strip(b).get('t', '')
    t = t.split(':', 1)[1] if t[:2] in ('p:', 'r:') else t
    c = ptr_class(t) if 'shared_ptr' in t else (t[2:] if t.startswith('R:') else None)
    if c is None:
        for n in walk(b):
            if 'shared_ptr<' in n.get('t', ''):
                c = ptr_class(flow.unref(n['t']))
                break
    return c


# ------------------------------------------------------------------ opt_set
def check_set(ctx, prog, tables):
    R = 'write'
    ctx.rule(R, 'setting an option writes, for each option type in use, exactly the bytes of a member of that type, at the option\'s '
             'offset in the object, from a value read out of the given text; a type it cannot set is refused; the text is not read past its end')
    f = prog.fn(OPT + '::opt_set')
    used = {}
    for g, es in tables.values():
        for e in es:
            for n in (walk(e['args'][3]) if e.get('args') and len(e['args']) > 3 else ()):
                if n.get('en'):
                    used[n['en'].rsplit('::', 1)[-1]] = n.get('v', n.get('cv'))
    po, pv, pl = [('p', p['n']) for p in f['params'][:3]]
    for ty, num in sorted(used.items()):
        st = flow.State()
        st.store[('F', ('D', ('this',)), TYPE)] = I(num)
        x = flow.Exec(prog)
        res = x.run(f, state=st)
        ctx.see(x)
        ctx.paths += len(res)
        if not res:
            raise AnalysisError('opt_set: no path for %s' % ty)
        for s, v in res:
            w = dest_writes(prog, s, po)
            null = s.truth(flow.eqatom(po, NULL)) is True
            what = 'opt_set for %s' % ty
            k = 'write|%s|' % ty
            if ty == SUBMODULE or null:
                ctx.judge(v != ZERO and not w, R, what + (' without an object' if null else '') + ' is refused', f['file'], f['l'], f['f'],
                          'answers success', key=k + 'refuse', witness=C.witness(s, v))
                continue
            if v != ZERO:
                ctx.judge(not w or True, R, what + ' may be refused', f['file'], f['l'], f['f'], '')
                continue
            kinds, size = KIND[ty]
            ok = len(w) == 1 and w[0][1] == size
            ctx.judge(ok, R, what + ' writes %d bytes at the offset' % size, f['file'], w[0][2] if w else f['l'], f['f'],
                      'writes %s' % [(x[1]) for x in w], key=k + 'size', witness=C.witness(s, v))
            if ok:
                src = w[0][3]
                # an empty text may give a constant
                empty = any(x == pl for a, b in s.facts for x in subterms(a)) or any(x == pl for t in s.le for x in subterms(t))
                from_text = any(x == pv or (x[0] == 'r' and from_val(s, x, pv)) for x in subterms(src))
                ctx.judge(from_text or empty, R, what + ' writes the value of the text', f['file'], w[0][2], f['f'],
                          'the value written is %s' % show(src), key=k + 'value', witness=C.witness(s, v))
                conv_of(ctx, R, what, f, s, src, ty, k)
    # reading past the text
    pn = f['params'][1]['id']
    for u in x.visited:
        g = prog.funcs.get(u) or {}
        ids = {pn} if g is f else {q['id'] for q in g.get('params', []) if q['t'] == 'p:i8'}
        for e in walk(g.get('body')):
            if e.get('k') == 'call' and str(e.get('f', '')).rsplit('::', 1)[-1] in ('memcmp', '__builtin_memcmp'):
                if any(n.get('k') == 'var' and n.get('id') in ids for a in e['args'][:2] for n in walk(a)):
                    ctx.judge(any(n.get('k') in ('var', 'call') for n in walk(e['args'][2])), R, 'opt_set reads no more than the text', g['file'],
                              e.get('l', 0), g['f'], 'compares a fixed number of bytes of a text that may be shorter', key='write|over')


def from_val(s, r, pv):
    return any(e[0] == 'call' and e[5] == r and any(pv in subterms(a) for a in C.vargs(e)) for e in s.ev)


CONV = {'CONF_OPT_TYPE_INT': {'atoi', 'strtol', 'std::stoi', 'atol', 'strtoll', 'atoll'},
        'CONF_OPT_TYPE_INT64': {'atoll', 'atol', 'strtoll', 'strtol', 'strtoull', 'std::stoll'},
        'CONF_OPT_TYPE_UINT64': {'atoll', 'atol', 'strtoll', 'strtoull', 'strtoul', 'std::stoull', 'std::stoll'},
        'CONF_OPT_TYPE_DOUBLE': {'atof', 'strtod', 'std::stod'}, 'CONF_OPT_TYPE_FLOAT': {'atof', 'strtod', 'strtof', 'std::stof'}}


def conv_of(ctx, R, what, f, s, src, ty, k):
    if ty not in CONV:
        return
    calls = {x[1] for x in subterms(src) if x[0] == 'r'} | {x[1] for x in subterms(src) if x[0] == 'call' and isinstance(x[1], str)}
    num = {c for c in calls if any(c in v for v in CONV.values())}
    ctx.judge(num <= CONV[ty], R, what + ' reads the whole range of its type', f['file'], f['l'], f['f'],
              'reads the text with %s' % sorted(num), key=k + 'conv')


def dest_writes(prog, s, po):
    """writes to the object: (loc, bytes, line, value)"""
    out = []
    for e in s.ev:
        if e[0] == 'call' and e[1].rsplit('::', 1)[-1] in ('memcpy', 'memmove', '__builtin_memcpy'):
            a = e[4]
            if po in subterms(C.vargs(e)[0]) and at_offset(C.vargs(e)[0], po):
                n = C.vargs(e)[2]
                src = a[1]
                val = src
                if src[0] == 'ad':
                    val = s.store.get(src[1], ('?',))
                out.append((a[0], n[1] if n[0] == 'i' else show(n), C.line_of(e)[1], val))
            elif po in subterms(C.vargs(e)[0]):
                out.append((a[0], 'elsewhere', C.line_of(e)[1], ('?',)))
        elif e[0] == 'st' and po in subterms(e[1]):
            loc = e[1]
            sz = width(prog, e)
            ok = whole(loc) and at_offset(ptr(loc), po)
            out.append((loc, sz if ok else 'elsewhere', 0, e[2]))
        elif e[0] in ('mut', 'cm') and len(e) > 2 and isinstance(e[2], tuple) and po in subterms(e[2]):
            loc = e[2]
            ok = whole(loc) and at_offset(ptr(loc), po)
            out.append((loc, 32 if ok else 'elsewhere', 0, e[3] if len(e) > 3 and isinstance(e[3], tuple) else ('?',)))
    return out


WIDTH = {'i8': 1, 'u8': 1, 'bool': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8}


def width(prog, ev):
    """bytes written by a store event: from the type of the assignment it stands for"""
    for g in prog.funcs.values():
        if g['f'] != ev[-1] or g['file'] != ev[-2]:
            continue
        for n in walk(g.get('body')):
            if n.get('l') != ev[3]:
                continue
            t = None
            if n.get('k') == 'asg':
                t = n.get('t')
            elif n.get('k') in ('opcall', 'call') and n.get('args') and ('=' == n.get('op') or str(n.get('f', '')).endswith('operator=')):
                t = n['args'][0].get('t')
            if t:
                t = flow.unref(t)
                return 8 if t.startswith('p:') else 32 if 'basic_string' in t else WIDTH.get(t, t)
    return 32


def whole(loc):
    return loc[0] == 'D' or (loc[0] == 'I' and whole(loc[1]))


def ptr(loc):
    return loc[1] if loc[0] == 'D' else flow.add(ptr(loc[1]), loc[2])


def at_offset(p, po):
    off = ('ld', ('F', ('D', ('this',)), OFF), 0)
    r = flow.sub(flow.sub(p, po), off)
    return r == ZERO


# ------------------------------------------------------------------ defaults
def step_ok(idx):
    """are the entries looked at consecutive, from the first on?"""
    idx = sorted(set(idx), key=str)
    if not idx:
        return True
    const = [i for i in idx if i[0] == 'i']
    if len(const) == len(idx):
        return sorted(i[1] for i in idx) == list(range(len(idx)))
    if const:
        return False
    for a in idx:
        d = [flow.sub(b, a) for b in idx]
        if all(x[0] == 'i' for x in d) and sorted(x[1] for x in d) == list(range(len(idx))):
            return True
    return False


def check_default(ctx, prog):
    R = 'defaults'
    ctx.rule(R, 'set_default walks the table from its first entry, one by one, to the nameless one, sets every option that is not a '
             'sub block with the text of its own default on the module\'s object, and stops only at a failure it answers')
    f = prog.fn(MOD + '::set_default')
    x = flow.Exec(prog, model={OPT + '::opt_set': C.event_only()})
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res) + len(x.iter_ends)
    for node, fn, s, again in x.iter_ends:
        names = entry_facts(s, NAME)
        cur = [i for i, y, b in names if y == NULL and not b]
        what = 'one entry of the table'
        ctx.judge(step_ok([i for i, y, b in names]), R, what + ': the next one follows', fn['file'], node.get('l', 0), fn['f'],
                  'entries are skipped: %s' % [show(i) for i, y, b in names], key='defaults|step', witness=C.witness(s))
        sets = [e for e in s.ev if e[0] == 'call' and e[1] == OPT + '::opt_set']
        sub = [i for i, y, b in entry_facts(s, TYPE) if b and y == I(8)]
        if sub:
            ctx.judge(not sets, R, what + ' that is a sub block', fn['file'], node.get('l', 0), fn['f'], 'a sub block is set', key='defaults|sub')
            continue
        ok = len(sets) == 1 and setting(s, sets[0]) and s.truth(flow.eqatom(sets[0][5], ZERO)) is True
        ctx.judge(ok, R, what + ' is set', fn['file'], node.get('l', 0), fn['f'],
                  'an option keeps no default: %d calls' % len(sets) if len(sets) != 1 else 'set with %s or its failure ignored' % show(C.vargs(sets[0])[1]),
                  key='defaults|set', witness=C.witness(s))
    if not x.iter_ends:
        raise AnalysisError('set_default: no loop')
    for s, v in res:
        sets = [e for e in s.ev if e[0] == 'call' and e[1] == OPT + '::opt_set']
        names = entry_facts(s, NAME)
        if s.truth(flow.eqatom(v, ZERO)) is not False:
            ctx.judge(any(y == NULL and b for i, y, b in names), R, 'success only at the nameless entry', f['file'], f['l'], f['f'],
                      'success before the end of the table', key='defaults|end', witness=C.witness(s, v))
            ctx.judge(step_ok([i for i, y, b in names]), R, 'walks from the first entry', f['file'], f['l'], f['f'],
                      'starts at %s' % [show(i) for i, y, b in names][:1], key='defaults|first', witness=C.witness(s, v))


def setting(s, e):
    """opt_set of an entry on the module's object with its own default"""
    i = entry(e[3]) if e[3] is not None else None
    a = C.vargs(e)
    if i is None or not any(t[0] == 'F' and t[2] == CONF for x in subterms(a[0]) for t in [x] if len(t) > 2):
        return False
    d = [t for t in subterms(a[1]) if t[0] == 'F' and t[2] == DEF]
    return len(d) >= 1 and all(entry(t[1]) == i for t in d)


# ------------------------------------------------------------------ init_conf
def check_init(ctx, prog):
    R = 'reading'
    ctx.rule(R, 'a block of the file is read as: create the object, set the defaults, then line by line: an item sets the option of its '
             'name (found in the whole table) with its own text; a block is created by its name, read and handed to the parent, each once and each '
             'failure answered; a closing brace ends a nested block and only that, the end of the file ends the root and only that; '
             'then post_conf, and its answer is the answer')
    f = prog.fn(MOD + '::init_conf')
    ev = ['create_conf', 'pre_conf', 'post_conf', 'set_default', 'post_sub_module']
    m = {MOD + '::' + k: C.event_only() for k in ev}
    m[OPT + '::opt_set'] = C.event_only()
    m['sps::ModuleFactoryRegister::create'] = C.event_only()
    stop = (MOD + '::parse', MOD + '::init_conf')
    x = flow.Exec(prog, model=m, inline=lambda g, fr=None: g['f'] not in stop and 'Single' not in g['f'])
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res) + len(x.iter_ends)
    num = {n['en'].rsplit('::', 1)[-1]: n['v'] for g in prog.funcs.values() if g.get('cls') == MOD for n in walk(g.get('body'))
           if n.get('en') and 'v' in n}
    need = ['EMPTY', 'COMMENT', 'ITEM', 'SUBMODULE_START', 'SUBMODULE_END']
    for k in need:
        if k not in num:
            raise AnalysisError('line kind %s not used' % k)
    P = MOD + '::parse'
    calls = lambda s, n: [e for e in s.ev if e[0] == 'call' and e[1].rsplit('::', 1)[-1] == n]

    def kinds(s):
        """line kinds possible after the last parse"""
        p = calls(s, 'parse')
        if not p:
            return None, None
        k = next((o[2] for o in p[-1][9] if o[0] == 3), None)
        if k is None:
            raise AnalysisError('parse does not answer the kind of line')
        return p[-1], [n for n in need if s.truth(flow.eqatom(k, I(num[n]))) is not False]

    seen = set()
    iters = 0
    for node, fn, s, again in x.iter_ends:
        p, ks = kinds(s)
        if p is None:
            continue
        if any(e[0] == 'loop' for e in s.ev[s.ev.index(p):]) and not ended(s.ev, s.ev.index(p)):
            # inside the search for the option
            names = [i for i, y, b in entry_facts(s, NAME)]
            outs = {o[0]: o[2] for o in p[9]}
            passed = passes(s, outs.get(1))
            ctx.judge(passed, R, 'the search passes an entry only when it has another name', fn['file'], node.get('l', 0), fn['f'],
                      'an entry is passed over although it may have the name', key='reading|pass', witness=C.witness(s))
            ctx.judge(step_ok(names), R, 'the search looks at every entry', fn['file'], node.get('l', 0), fn['f'],
                      'entries are skipped: %s' % [show(i) for i in names], key='reading|step', witness=C.witness(s))
            continue
        if not again:
            continue
        iters += 1
        line = (fn['file'], node.get('l', 0), fn['f'])
        w = C.witness(s)
        ctx.judge(s.truth(flow.eqatom(p[5], ZERO)) is True, R, 'a line that cannot be parsed is refused', *line,
                  'reading goes on after a malformed line', key='reading|malformed', witness=w)
        ctx.judge('SUBMODULE_END' not in ks, R, 'a closing brace ends the block', *line,
                  'reading the block goes on after its closing brace', key='reading|close', witness=w)
        sets, made, inner, posted = calls(s, 'opt_set'), calls(s, 'create'), calls(s, 'init_conf'), calls(s, 'post_sub_module')
        outs = {o[0]: o[2] for o in p[9]}
        if 'ITEM' in ks:
            names = entry_facts(s, NAME)
            if not sets:
                miss = [i for i, y, b in names if y == NULL and b]
                if not ctx.judge(bool(miss) and step_ok([i for i, y, b in names]) and passes(s, outs.get(1)), R, 'an item is only skipped when no option has its name', *line,
                                 'an item is skipped although the table was not searched to its end', key='reading|skip', witness=w):
                    continue
            else:
                e = sets[0]
                i = entry(e[3]) if e[3] is not None else None
                hit = [j for j, y, b in names if b and y == outs.get(1)]
                ctx.judge(len(sets) == 1 and i is not None and i in hit, R, 'an item sets the option of its name', *line,
                          'the option that is set is not the one found by name', key='reading|which', witness=w)
                ctx.judge(step_ok([j for j, y, b in names]), R, 'the search starts at the first entry', *line,
                          'the search skips entries', key='reading|first', witness=w)
                a = C.vargs(e)
                conf = any(t[0] == 'F' and t[2] == CONF for t in subterms(a[0]) if len(t) > 2)
                ctx.judge(conf and outs.get(2) in subterms(a[1]), R, 'an item sets its text on the module\'s object', *line,
                          'sets %s on %s' % (show(a[1]), show(a[0])), key='reading|text', witness=w)
                ctx.judge(s.truth(flow.eqatom(e[5], ZERO)) is True, R, 'a value that cannot be set is refused', *line,
                          'reading goes on', key='reading|value', witness=w)
            seen.add('ITEM')
        if 'SUBMODULE_START' in ks and 'ITEM' not in ks:
            seen.add('SUBMODULE_START')
            ok = len(made) == 1 and len(inner) == 1 and len(posted) == 1
            if ctx.judge(ok, R, 'a block is created, read and handed over once', *line,
                         'created %d, read %d, handed over %d times' % (len(made), len(inner), len(posted)), key='reading|block', witness=w):
                c = made[0]
                a = C.vargs(c)
                ctx.judge(outs.get(1) in subterms(a[0]) and outs.get(2) in subterms(a[1]), R, 'a block is created by its own name', *line,
                          'created as %s %s' % (show(a[0]), show(a[1])), key='reading|create', witness=w)
                ctx.judge(inner[0][3] == c[5] and c[5] in subterms(C.vargs(posted[0])[0]) and s.ev.index(inner[0]) < s.ev.index(posted[0]), R,
                          'the block created is the one read and handed over', *line, 'another object is read or handed over', key='reading|same', witness=w)
                for e, n in ((inner[0], 'reading'), (posted[0], 'handing over')):
                    ctx.judge(s.truth(flow.eqatom(e[5], ZERO)) is True, R, 'a block whose %s fails is refused' % n, *line,
                              'reading goes on', key='reading|sub%s' % n, witness=w)
        if not ({'ITEM', 'SUBMODULE_START'} & set(ks)):
            seen.add('/'.join(ks))
            ctx.judge(not (sets or made or posted), R, 'an empty or comment line changes nothing', *line, 'it does', key='reading|comment', witness=w)
    if not {'ITEM', 'SUBMODULE_START'} <= seen:
        raise AnalysisError('init_conf: line kinds %s' % sorted(seen))
    eof = I(error_code(prog, 'ERROR_IO_EOF'))
    root = None
    for s, v in res:
        good = v == ZERO or s.truth(flow.eqatom(v, ZERO)) is not False
        cr, de, st, po = calls(s, 'create_conf'), calls(s, 'set_default'), calls(s, 'opt_set'), calls(s, 'post_conf')
        line = (f['file'], f['l'], f['f'])
        w = C.witness(s, v)
        if st:
            ctx.judge(bool(de) and s.ev.index(de[0]) < s.ev.index(st[0]), R, 'defaults come before values', *line,
                      'a value can be overwritten by its default', key='reading|order', witness=w)
        if not good or v[0] == 'r' and not v[1].endswith('post_conf'):
            continue
        if not ctx.judge(len(po) == 1 and len(cr) == 1 and len(de) == 1, R, 'success passes create, defaults and post_conf once', *line,
                         'create_conf %d, set_default %d, post_conf %d' % (len(cr), len(de), len(po)), key='reading|steps', witness=w):
            continue
        ctx.judge(s.ev.index(de[0]) > s.ev.index(cr[0]) and s.ev.index(po[0]) > s.ev.index(de[0]) and
                  not any(e[0] == 'st' and e[1][0] == 'F' and e[1][2] == CONF for e in s.ev[s.ev.index(de[0]):]), R,
                  'create, defaults, lines, post_conf in this order on one object', *line, 'they are out of order', key='reading|seq', witness=w)
        ctx.judge(s.truth(flow.eqatom(de[0][5], ZERO)) is True, R, 'a default that cannot be set is refused', *line, 'it is not',
                  key='reading|defret', witness=w)
        p, ks = kinds(s)
        rd = calls(s, 'read_line')
        atend = bool(rd) and eof is not None and s.truth(flow.eqatom(rd[-1][5], eof)) is True
        isroot = is_root(s)
        if p is None or (rd and s.ev.index(rd[-1]) > s.ev.index(p)):
            # ended by the reader: only the end of the file, and only for the root (the kind of an earlier line is not a
            # closing brace: such a line ends the loop, see 'close')
            ctx.judge(atend and (isroot is True or stale_end(s, num)), R, 'the file ends the root block only', *line,
                      'a block that is not closed is accepted' if atend else 'a failing reader is taken for the end', key='reading|eof', witness=w)
        else:
            ctx.judge(ks == ['SUBMODULE_END'] and isroot is False, R, 'a closing brace ends a nested block only', *line,
                      'a block ends with a line of kind %s' % ks if ks != ['SUBMODULE_END'] else 'a closing brace ends the root', key='reading|end', witness=w)


def error_code(prog, name):
    import os
    import re
    t = open(os.path.join(prog.repo, 'src/sps_error.hpp')).read()
    m = re.search(r'^\s*#define\s+%s\s+(\d+)' % name, t, re.M) or re.search(r'\b%s\s*=\s*(\d+)' % name, t)
    if not m:
        raise AnalysisError('%s not found' % name)
    return int(m.group(1))


def passes(s, name):
    """is every entry looked at either nameless, of another name, or the one found?"""
    names = entry_facts(s, NAME)
    return all(any(j == i and ((y == NULL and b) or y == name) for j, y, b in names) for i, _, _ in names)


def stale_end(s, num):
    """does the path need the kind of an *earlier* line to be a closing brace?"""
    return any(a[0] == 'eq' and b and any(t[0] == 'hv' for t in (a[1], a[2])) and I(num['SUBMODULE_END']) in (a[1], a[2]) for a, b in s.facts) \
        or any(t[0] == 'hv' and c == I(num['SUBMODULE_END']) for t, c in s.eq.items())


def is_root(s):
    for a, b in s.facts:
        if a[0] == 'eq' and ('s', 'root') in (a[1], a[2]):
            return b
    return None


def ended(ev, i):
    """is every loop begun after event i ended?"""
    o = {}
    for e in ev[i:]:
        if e[0] == 'loop':
            o[e[1]] = True
        elif e[0] == 'endloop':
            o.pop(e[1], None)
    return not o


# ------------------------------------------------------------------ parse
def check_parse(ctx, prog):
    R = 'line'
    ctx.rule(R, 'a line is accepted only with its kind set on that line; a closing brace only when it stands alone; an item or a block '
             'only with a name and an end mark')
    f = prog.fn(MOD + '::parse')
    x = flow.Exec(prog)
    res = x.run(f)
    ctx.see(x)
    ctx.paths += len(res)
    num = {n['en'].rsplit('::', 1)[-1]: n['v'] for n in walk(f['body']) if n.get('en') and 'v' in n}
    kp = ('X', ('p', f['params'][3]['n']))
    cp = ('X', ('p', f['params'][1]['n']))
    n = 0
    for s, v in res:
        if not (v == ZERO or s.truth(flow.eqatom(v, ZERO)) is True):
            continue
        n += 1
        w = C.witness(s, v)
        k = s.store.get(kp)
        line = (f['file'], f['l'], f['f'])
        if k is None and marked(s, x, kp):
            k = x.load(s, kp, 'u32')
        if not ctx.judge(k is not None, R, 'an accepted line has a kind', *line, 'the kind of an earlier line is kept', key='line|kind', witness=w):
            continue
        size1 = any(b and a[0] == 'eq' and I(1) in (a[1], a[2]) and any(t[0] == 'call' and t[1] == 'size' for t in (a[1], a[2])) for a, b in s.facts) \
            or any(t[0] == 'call' and t[1] == 'size' and c == I(1) for t, c in s.eq.items())
        end = s.truth(flow.eqatom(k, I(num['SUBMODULE_END'])))
        if end is not False:
            ctx.judge(end is True and size1, R, 'a closing brace stands alone', *line,
                      'a line with words before the closing brace is accepted and the words are dropped', key='line|alone', witness=w)
    if not n:
        raise AnalysisError('parse: accepts nothing')


def marked(s, x, kp):
    """is the kind set on every path of the loop that sets the flag this path has seen set?"""
    flags = {a for a, b in s.facts if b for a in a[1:] if isinstance(a, tuple) and a[0] == 'hv'} | {a for a, b in s.facts if a[0] == 'hv' and b}
    flags |= {a[1] for a, b in s.facts if a[0] == 'eq' and not b and a[1][0] == 'hv' and a[2] == ZERO}
    for h in flags:
        loc = next((k for k, v in s.store.items() if v == h and k[0] == 'L'), None)
        if loc is None:
            continue
        ends = [e for n, fn, e, again in x.iter_ends if loc in e.store]
        first = [e for e in ends if e.store[loc] == I(1)]
        if first and all(e.store.get(kp, ('?',))[0] == 'i' for e in first) and all(e.store[loc] in (I(1), I(0)) or e.store[loc][0] == 'hv' for e in ends):
            return True
    return False
