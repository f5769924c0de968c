from contracts.common import *
import io

OPTS = ('byref', 'fmode', 'recurse')
SET = D.Pickler.settings
K_SETDICT = Kind('settings', pytype=dict, cons='ref', dictkinds=(K_STR, ANY))


def setup(m, opts=('protocol', 'byref', 'fmode', 'recurse', 'ignore')):
    """dill.settings with arbitrary values; the stock pickler and unpickler only record what they are given"""
    arr = m.ctx.fresh('settings', DICT)
    for k in SET: m.assume(OV.is_some(z3.Select(arr, z3.simplify(V.strv(z3.StringVal(k))))))
    m.dicts[host_rid(SET)] = DMap(arr, (), K_STR, lambda mm, k: K_INT if isinstance(k, C) and k.v == 'protocol' else ANY)
    m.ghost['settings'] = arr
    log = m.ghost['log'] = []
    def p_init(mm, a, kw):
        kw = dict(kw); rest = kw.pop('**', DMap())
        rest = rest.copy(); rest.writes = rest.writes + [(C(k), x) for k, x in kw.items()]
        log.append(('init', a[0], a[1:], rest)); return NONE
    def p_dump(mm, a, kw):
        p, obj = a[0], a[1]
        f = [e for e in log if e[0] == 'init' and mm.is_(e[1], p) is True]
        data = mm.sym('data', K_BYTES)
        if f and f[-1][2]:
            t = f[-1][2][0]
            if isinstance(t, O): mm.attrs.setdefault(t.addr, {}).setdefault('#data', []).append(data)
        log.append(('dump', p, obj, dict(mm.attrs.get(p.addr, {})), data)); return NONE
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(D.StockPickler.__init__)] = p_init; m.overrides[host_rid(D.StockPickler.dump)] = p_dump
    def u_init(mm, a, kw):
        kw = dict(kw); rest = kw.pop('**', DMap())
        rest = rest.copy(); rest.writes = rest.writes + [(C(k), x) for k, x in kw.items()]
        log.append(('uinit', a[0], a[1:], rest)); return NONE
    def u_load(mm, a, kw):
        r = mm.sym('loaded', ANY)
        log.append(('load', a[0], r, dict(mm.attrs.get(a[0].addr, {})))); return r
    m.overrides[host_rid(D.StockUnpickler.__init__)] = u_init; m.overrides[host_rid(D.Unpickler.load)] = u_load
    m.overrides[host_rid(LOG.TraceAdapter.trace_setup)] = lambda mm, a, kw: NONE
    def bio(mm, a, kw):
        o = mm.alloc(io.BytesIO); mm.attrs[o.addr] = {'#data': list(a)}; return o
    m.env.model(io.BytesIO, bio)
    def getvalue(mm, o, a, kw):
        d = mm.attrs[o.addr]['#data']
        return C(b'') if not d else d[0] if len(d) == 1 else SByt(z3.Concat(*[V.yv(term(x)) for x in d]))
    m.env.model(D.OrderedDict, lambda mm, a, kw: mm.new_dict(pytype=D.OrderedDict))
    m.env.obj_method_models = dict(m.env.obj_method_models); m.env.obj_method_models[(io.BytesIO, 'getvalue')] = getvalue
    m.env.obj_method_models[(io.BytesIO, 'read')] = getvalue
    m.env.obj_attr_models = dict(m.env.obj_attr_models)
    m.env.obj_attr_models[io.BytesIO] = lambda mm, v, n: M(v, n, None) if n in ('getvalue', 'read', 'write', 'close') else None
    # module-level state read by the constructors
    m.attrs.setdefault(host_rid(D), {})['_main_module'] = m.sym('main_module', K_MODULE)


def setting(m, k): return S(z3.simplify(OV.val(z3.Select(m.ghost['settings'], z3.simplify(V.strv(z3.StringVal(k)))))))


def effective(m, given, k):
    """V-term of the option: the caller's value if it gave one that is not None"""
    s = term(setting(m, k))
    if given is ABSENT or given is None: return s
    return z3.simplify(z3.If(V.is_none(term(given)), s, term(given)))


def rest_of(m, arr, drop):
    for k in drop: arr = z3.Store(arr, z3.simplify(V.strv(z3.StringVal(k))), OV.absent)
    return arr


def kwargs_of(m, name, arity):
    """the caller's keyword arguments: arbitrary, string-keyed, none that clashes with a positional argument"""
    arr = m.ctx.fresh(name, DICT)
    for k in arity: m.assume(OV.is_absent(z3.Select(arr, z3.simplify(V.strv(z3.StringVal(k))))))
    return DMap(arr, (), K_STR, None)


def given(m, arr, k):
    """V-term of the value passed under that keyword (None if not passed)"""
    ov = z3.Select(arr, z3.simplify(V.strv(z3.StringVal(k))))
    return S(z3.simplify(z3.If(OV.is_some(ov), OV.val(ov), V.none)))


def settings_kept(m):
    m.prove('dill.settings is not modified', m.dmap(C(SET)).array() == m.ghost['settings'])


def pickler_ok(m, p, attrs, byname, args, rest, want_args, want_rest):
    for o in OPTS:
        v = attrs.get('_' + o)
        m.prove('%s is the caller\'s value if one was given, else the setting' % o, v is not None and term(v) == effective(m, byname[o], o))
    m.prove('the stock pickler gets the file and the other positional arguments unchanged', want_args(args))
    m.prove('and exactly the remaining keyword arguments', z3.simplify(rest.array()) == want_rest if not isinstance(want_rest, bool) else want_rest)


@unit('C10', 'Pickler()', ['dill._dill:Pickler.__init__'], covers=['made'])
def pickler_init(m):
    """any positional arguments, any keywords"""
    setup(m)
    f = m.sym('file', ANYREF)
    star = m.sym('args', K_TUPLE)
    kw = kwargs_of(m, 'kwds', ('file', 'self')); arr = kw.array()
    p = m.alloc(D.Pickler)
    out, r = m.run(D.Pickler.__init__, [p, f, StarSeq(star)], {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('made')
    log = m.ghost['log']
    m.prove('the stock constructor is called once, for this object', len(log) == 1 and log[0][0] == 'init' and m.is_(log[0][1], p) is True)
    if len(log) != 1: return
    pickler_ok(m, p, m.attrs[p.addr], {o: given(m, arr, o) for o in OPTS}, log[0][2], log[0][3],
               lambda a: len(a) == 2 and And(m.is_(a[0], f), m.is_(unstar(a[1]), star)), rest_of(m, arr, OPTS))
    m.prove('the caller\'s keywords are not modified', kw.array() == arr)
    settings_kept(m)


def StarSeq(v):
    from pyvc.interp import _StarSeq
    return _StarSeq(v)


def unstar(v): return getattr(v, 'val', v)


def pos_args(m, names, kinds):
    """the caller passes a prefix of the optional parameters by position; returns (args, {name: value})"""
    n = m.ctx.choose(len(names) + 1)
    vals = [m.sym(k, kd) for k, kd in zip(names[:n], kinds)]
    return vals, dict(zip(names[:n], vals))


DUMP_OPTS = ('protocol', 'byref', 'fmode', 'recurse')
K_PROTO = OneOf(K_NONE, K_INT, K_BOOL)


def check_dump(m, p_events, f, obj, byname, arr, drop):
    log = m.ghost['log']
    inits = [e for e in log if e[0] == 'init']; dumps = [e for e in log if e[0] == 'dump']
    m.prove('one pickler, one dump', len(inits) == 1 and len(dumps) == 1)
    if len(inits) != 1 or len(dumps) != 1: return None
    m.prove('a dill pickler dumps the object', m.pytype(inits[0][1]) is D.Pickler and m.is_(dumps[0][1], inits[0][1]) is True and m.is_(dumps[0][2], obj))
    _, p, args, rest = inits[0]
    pg = byname['protocol']
    def want(a):
        if len(a) > 2 or not a: return False
        pr = a[1] if len(a) == 2 else m.dmap_get(rest, C('protocol'))
        if pr is ABSENT: return False
        pr = m.force(pr)
        if m.pytype(pr) not in (int, bool): return False
        g = m.force(pg) if pg is not None else NONE
        wantp = V.iv(term(setting(m, 'protocol'))) if m.is_(g, NONE) is True else zint(g)
        return And(True if f is None else m.is_(a[0], f), zint(pr) == wantp)
    rest2 = rest.copy()
    m._dm_del(rest2, C('protocol'))
    pickler_ok(m, p, dumps[0][3], byname, args, rest2, want, rest_of(m, arr, drop))
    return dumps[0]


@unit('C10', 'dump', ['dill._dill:dump', 'dill._dill:Pickler.__init__', 'dill._dill:Pickler.dump'], covers=['dumped'], max_paths=20000, seconds=400)
def dump(m):
    """every option by position or by name, with any value"""
    setup(m)
    obj, f = m.sym('obj', ANYREF), m.sym('file', ANYREF)
    pos, byname = pos_args(m, DUMP_OPTS, [K_PROTO, ANY, ANY, ANY])
    kw = kwargs_of(m, 'kwds', ('obj', 'file', 'self') + tuple(byname)); arr = kw.array()
    if 'protocol' not in byname:
        g = given(m, arr, 'protocol'); m.assume(z3.Or(V.is_none(g.t), V.is_intv(g.t), V.is_boolv(g.t)))
        m.setkind(g.t, K_PROTO); byname['protocol'] = g
    for o in OPTS:
        if o not in byname: byname[o] = given(m, arr, o)
    out, r = m.run(D.dump, [obj, f] + pos, {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('dumped')
    check_dump(m, None, f, obj, byname, arr, DUMP_OPTS)
    m.prove('the caller\'s keywords are not modified', kw.array() == arr)
    settings_kept(m)


@unit('C10', 'dumps', ['dill._dill:dumps', 'dill._dill:dump'], covers=['dumped'], max_paths=20000, seconds=400)
def dumps(m):
    """as dump, and exactly the bytes written are returned"""
    setup(m)
    obj = m.sym('obj', ANYREF)
    pos, byname = pos_args(m, DUMP_OPTS, [K_PROTO, ANY, ANY, ANY])
    kw = kwargs_of(m, 'kwds', ('obj', 'file', 'self') + tuple(byname)); arr = kw.array()
    if 'protocol' not in byname:
        g = given(m, arr, 'protocol'); m.assume(z3.Or(V.is_none(g.t), V.is_intv(g.t), V.is_boolv(g.t)))
        m.setkind(g.t, K_PROTO); byname['protocol'] = g
    for o in OPTS:
        if o not in byname: byname[o] = given(m, arr, o)
    out, r = m.run(D.dumps, [obj] + pos, {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('dumped')
    d = check_dump(m, None, None, obj, byname, arr, DUMP_OPTS)
    if d is None: return
    m.prove('exactly the bytes written are returned', m.is_(r, d[4]))
    settings_kept(m)


def check_load(m, r, arr, g, f):
    log = m.ghost['log']
    inits = [e for e in log if e[0] == 'uinit']; loads = [e for e in log if e[0] == 'load']
    m.prove('one unpickler, one load', len(inits) == 1 and len(loads) == 1)
    if len(inits) != 1 or len(loads) != 1: return
    m.prove('a dill unpickler', m.pytype(inits[0][1]) is D.Unpickler and m.is_(loads[0][1], inits[0][1]) is True)
    v = loads[0][3].get('_ignore')
    m.prove('ignore is the caller\'s value if one was given, else the setting', v is not None and term(v) == effective(m, g, 'ignore'))
    a = inits[0][2]
    if callable(f) and not isinstance(f, Val): m.prove('the unpickler reads exactly the given bytes', len(a) == 1 and f(a[0]))
    else: m.prove('the unpickler reads the given file', len(a) == 1 and m.is_(a[0], f))
    m.prove('the remaining keywords reach it unchanged', inits[0][3].array() == rest_of(m, arr, ('ignore',)))
    m.prove('what was loaded is returned', m.is_(r, loads[0][2]))


@unit('C10', 'Unpickler()', ['dill._dill:Unpickler.__init__'], covers=['made'])
def unpickler_init(m):
    setup(m)
    star = m.sym('args', K_TUPLE)
    kw = kwargs_of(m, 'kwds', ('file', 'self')); arr = kw.array()
    p = m.alloc(D.Unpickler)
    out, r = m.run(D.Unpickler.__init__, [p, StarSeq(star)], {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('made')
    log = m.ghost['log']
    m.prove('the stock constructor is called once, for this object', len(log) == 1 and log[0][0] == 'uinit' and m.is_(log[0][1], p) is True)
    if len(log) != 1: return
    v = m.attrs[p.addr].get('_ignore')
    m.prove('ignore is the caller\'s value if one was given, else the setting', v is not None and term(v) == effective(m, given(m, arr, 'ignore'), 'ignore'))
    a = log[0][2]
    m.prove('positional arguments unchanged', len(a) == 1 and m.is_(unstar(a[0]), star))
    m.prove('the remaining keywords unchanged', log[0][3].array() == rest_of(m, arr, ('ignore',)))
    m.prove('the caller\'s keywords are not modified', kw.array() == arr)
    settings_kept(m)


@unit('C10', 'load', ['dill._dill:load', 'dill._dill:Unpickler.__init__'], covers=['loaded'])
def load(m):
    setup(m)
    f = m.sym('file', ANYREF)
    pos, byname = pos_args(m, ('ignore',), [ANY])
    kw = kwargs_of(m, 'kwds', ('file', 'self') + tuple(byname)); arr = kw.array()
    g = byname.get('ignore') or given(m, arr, 'ignore')
    out, r = m.run(D.load, [f] + pos, {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('loaded')
    check_load(m, r, arr, g, f); settings_kept(m)


@unit('C10', 'loads', ['dill._dill:loads', 'dill._dill:load'], covers=['loaded'])
def loads(m):
    setup(m)
    data = m.sym('str', K_BYTES)
    pos, byname = pos_args(m, ('ignore',), [ANY])
    kw = kwargs_of(m, 'kwds', ('file', 'self', 'str') + tuple(byname)); arr = kw.array()
    g = byname.get('ignore') or given(m, arr, 'ignore')
    out, r = m.run(D.loads, [data] + pos, {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('loaded')
    def has(x): return isinstance(x, O) and len(m.attrs.get(x.addr, {}).get('#data', [])) == 1 and m.is_(m.attrs[x.addr]['#data'][0], data)
    check_load(m, r, arr, g, has); settings_kept(m)


@unit('C10', 'copy', ['dill._dill:copy', 'dill._dill:dumps', 'dill._dill:loads'], covers=['copied'], max_paths=20000, seconds=400)
def copy(m):
    """options for pickling and for unpickling each reach the right side"""
    setup(m)
    obj = m.sym('obj', ANYREF)
    pos, byname = pos_args(m, DUMP_OPTS, [K_PROTO, ANY, ANY, ANY])
    kw = kwargs_of(m, 'kwds', ('obj', 'file', 'self') + tuple(byname)); arr = kw.array()
    if 'protocol' not in byname:
        g = given(m, arr, 'protocol'); m.assume(z3.Or(V.is_none(g.t), V.is_intv(g.t), V.is_boolv(g.t)))
        m.setkind(g.t, K_PROTO); byname['protocol'] = g
    for o in OPTS:
        if o not in byname: byname[o] = given(m, arr, o)
    gi = given(m, arr, 'ignore')
    out, r = m.run(D.copy, [obj] + pos, {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('copied')
    d = check_dump(m, None, None, obj, byname, arr, DUMP_OPTS + ('ignore',))
    if d is None: return
    def has(x): return isinstance(x, O) and len(m.attrs.get(x.addr, {}).get('#data', [])) == 1 and m.is_(m.attrs[x.addr]['#data'][0], d[4])
    check_load(m, r, EMPTYD, gi, has)
    m.prove('the caller\'s keywords are not modified', kw.array() == arr)
    settings_kept(m)
