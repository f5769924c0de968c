from contracts.fn import *
import contracts.c06


@unit('C03', 'following a dotted name', ['dill._dill:_getattribute'], covers=['found', 'local', 'missing'])
def getattribute(m):
    """any object and any dotted name, with any number of components"""
    st = {'q': [], 'n': 0}
    start = m.sym('start', ANYREF)
    objs = [m.sym('a', ANYREF), m.sym('b', ANYREF)]; parts = [m.sym('pa', K_STR), m.sym('pb', K_STR)]
    m.assume(z3.Distinct(start.t, objs[0].t, objs[1].t)); m.assume(parts[0].t != parts[1].t)
    for p in parts: m.assume(p.t != z3.StringVal('<locals>'))
    cur = [start]; flags = {'local': False, 'pending': None, 'failed': None}
    def step(mm):
        mm.prove('every component was looked up', flags['pending'] is None and not flags['local'])
        st['n'] += 1
        if mm.ctx.choose(2): flags['local'] = True; return C('<locals>')
        flags['pending'] = parts[st['n'] % 2]
        return flags['pending']
    def more(mm): return st['n'] == 0 or bool(mm.ctx.choose(2))
    name = m.sym('name', Kind('dotted', isa=(str,), cons='ref', open=True, methods={'split': lambda mm, o, a, kw: (mm.prove('split at the dots', len(a) == 1 and not kw and mm.eq(a[0], C('.'))), Lazy(step, more, ghost=lambda mm: (valkey(cur[0]), st['n'] % 2, st['n'] == 0, flags['local'])))[1],
        'format': lambda mm, o, a, kw: mm.sym('text', K_STR)}))
    def ga(mm, a):
        mm.prove('no component is followed after <locals>', not flags['local'])
        mm.prove('the component is looked up in the object found so far', And(mm.is_(a[0], cur[0])))
        mm.prove('it is the next component', flags['pending'] is not None and mm.eq(a[1], flags['pending']))
        c = mm.ctx.choose(3 if len(a) == 2 else 2)
        if c == 1:
            if len(a) > 2: return a[2]
            flags['failed'] = AttributeError; mm.raise_(AttributeError, C('missing'))
        if c == 2: flags['failed'] = mm.sym_exc('lookup'); raise PyRaise(flags['failed'])
        flags['pending'] = None
        cur[0] = objs[st['n'] % 2]
        return cur[0]
    m.ghost['getattr_hook'] = ga
    out, r = m.run(D._getattribute, [start, name])
    if out == 'return':
        m.cover('found')
        m.prove('nothing is found through <locals> or a missing name', not flags['local'] and flags['failed'] is None and flags['pending'] is None)
        x = m.iterate(r)
        m.prove('the object at the end of the path', len(x) == 2 and And(m.is_(x[0], cur[0])))
    elif flags['local']: m.cover('local'); m.prove('a <locals> component is an attribute error', m.pytype(r) is AttributeError)
    elif flags['failed'] is AttributeError: m.cover('missing'); m.prove('a missing name is an attribute error', m.pytype(r) is AttributeError)
    else: m.prove('what a lookup raises', flags['failed'] is not None and Or(m.is_(r, flags['failed']), m.pytype(r) is AttributeError))


@unit(['C03', 'C29'], 'is it located', ['dill._dill:_locate_function'], covers=['located', 'not located', 'main', 'session main', 'the lookup fails', 'no import'], max_paths=8000)
def locate(m):
    """any function or class, whatever its module and qualified name; any pickler or none"""
    m.overrides = dict(m.overrides)
    i = m.ctx.choose(4)
    p = NONE if i == 3 else mk_pickler(m, i)
    name = m.force(m.sym('module', OneOf(K_STR, K_NONE, K_INT, K_TUPLE)))
    absent = m.ctx.choose(2)
    qual = m.sym('qualname', K_STR)
    obj = m.sym('obj', Kind('definition', cons='ref', open=True))
    at = m.attrs[m.key(obj, m.attrs, True)] = {'__module__': ABSENT if absent else name, '__qualname__': qual, '__name__': m.sym('name', K_STR)}
    st = {}
    m.dicts[host_rid(sys.modules)] = DMap(m.ctx.fresh('sys_modules', DICT), (), K_STR, ANY)
    mod = m.sym('mod', ANYREF)
    found = m.sym('found', ANY)
    def imp(mm, a, kw):
        mm.prove('the recorded module is imported', not absent and mm.is_(a[0], name))
        safe = mm.branch(a[1] if len(a) > 1 else kw.get('safe', FALSE))
        st['import'] = mm.ctx.choose(2)
        if not st['import']: return mod
        if safe: return NONE
        raise PyRaise(mm.sym_exc('import_error', isa=(Exception,)))
    def follow(mm, a, kw):
        mm.prove('the recorded qualified name is followed', mm.is_(a[1], qual))
        st['from'] = a[0]
        st['follow'] = 'import' in st and st['import'] == 0 and mm.ctx.choose(2)
        if st['import'] or st['follow']: raise PyRaise(mm.sym_exc('lookup_error', isa=(Exception,)))
        mm.prove('starting at the module', mm.is_(a[0], mod))
        return T([found, mm.sym('parent', ANY)])
    m.overrides[host_rid(D._import_module)] = imp
    m.overrides[host_rid(D._getattribute)] = follow
    mods = m.dmap(C(sys.modules)).array()
    args = [obj] if i == 3 and m.ctx.choose(2) else [obj, p]
    out, r = m.run(D._locate_function, args)
    m.prove('never raises', out == 'return')
    if out != 'return': return
    yes = m.branch(r)
    main = absent or name is NONE or m.branch(mkbool(m.eq(name, C('__main__'))))
    sess = i == 0 and not main and m.branch(m.attrs[p.addr]['_session']) and m.branch(mkbool(m.eq(name, m.getattr(m.attrs[p.addr]['_main'], '__name__'))))
    if main: m.cover('main'); m.prove('nothing of __main__ or of no module is located', not yes); return
    if sess: m.cover('session main'); m.prove("nothing of the session's main module is located", not yes); return
    if st.get('import') != 0: m.cover('no import'); m.prove('not without importing the module', not yes); return
    if st.get('follow') != 0: m.cover('the lookup fails'); m.prove('not if the lookup fails', not yes); return
    ent = z3.Select(mods, term(name))
    spec = And(m.is_(found, obj), z3.And(z3.Not(OV.is_absent(ent)), OV.val(ent) == mod.t))
    if yes: m.cover('located'); m.prove('located only if it is the identical object, in the module of that name', spec)
    else: m.cover('not located'); m.prove('located if it is', Not(spec))


@unit('C03', 'functions by reference or value', ['registered for FunctionType'], covers=['by reference', 'by value'], max_paths=20000, seconds=400)
def functions(m):
    """any function: what is written for it, depending on whether it is located alone"""
    e = fn_env(m, closure=False, mod=K_NONE, plain=True)
    loc = m.ctx.branch(e.located)
    if not run_fn(m, e): return
    evs = [x for x in events(m) if x.kind != 'write']
    if loc:
        m.cover('by reference')
        m.prove('stored as a name only', len(evs) == 1 and evs[0].kind == 'global')
        if len(evs) == 1 and evs[0].kind == 'global': m.prove('its qualified name', And(m.is_(evs[0].obj, e.obj), m.eq(evs[0].name, e.d['__qualname__'])))
        m.prove('nothing is deferred', not e.own and not e.deferred)
    else:
        m.cover('by value')
        m.prove('stored by value', len(evs) == 1 and evs[0].kind == 'reduce' and m.is_(evs[0].func, C(D._create_function)))
