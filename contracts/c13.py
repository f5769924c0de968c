from contracts.common import *
import importlib.machinery

PREFIXES = ('base_prefix', 'base_exec_prefix', 'exec_prefix', 'prefix', 'real_prefix')
STR, STR2 = z3.StringSort(), z3.StringSort()
real = ufun('realpath', z3.StringSort(), z3.StringSort())
builtin_ = ufun('is_builtin_module', z3.IntSort(), z3.BoolSort())
imported_ = ufun('is_imported_module', z3.IntSort(), z3.BoolSort())


def path_models(m):
    """os.path.realpath is some function of the path; os.path.join(d, '') is d with a separator at its end"""
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(os.path.realpath)] = lambda mm, a, kw: SStr(real(zstr(a[0])))
    def join(mm, a, kw):
        if len(a) != 2 or not (isinstance(a[1], C) and a[1].v == ''): raise Unsupported('os.path.join')
        return SStr(directory(zstr(a[0])))
    m.overrides[host_rid(os.path.join)] = join


def directory(t): return z3.If(z3.Or(t == '', z3.SuffixOf('/', t)), t, z3.Concat(t, z3.StringVal('/')))


@unit('C13', 'is it a builtin module', ['dill._dill:_is_builtin_module'], covers=['no file', 'a file', 'None'])
def is_builtin(m):
    """any module; any interpreter prefixes, some of which may be missing; any file name"""
    path_models(m)
    m.ghost['noapprox'] = True
    k = m.ctx.choose(3)
    names = ['prefix'] if m.ctx.choose(2) else list(PREFIXES)
    over = m.attrs.setdefault(host_rid(sys), {})
    pre = {}
    for n in PREFIXES:
        if n in names: pre[n] = over[n] = m.sym(n, K_STR)
        else: over[n] = ABSENT
    f = (ABSENT, NONE, m.sym('file', K_STR))[k]
    obj = m.sym('obj', Kind('mod', base=K_MODULE, attrs={'__file__': f}) if k != 2 else Kind('mod', base=K_MODULE))
    if k == 2: m.attrs[m.key(obj, m.attrs, True)] = {'__file__': f}
    out, r = m.run(D._is_builtin_module, [obj])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    if k == 0: m.cover('no file'); m.prove('a module without a file belongs to the interpreter', m.truth(r)); return
    if k == 1: m.cover('None'); m.prove('one whose file is None does not', Not(m.truth(r))); return
    m.cover('a file')
    ft = zstr(f)
    under = [Or(z3.PrefixOf(directory(zstr(p)), ft), z3.PrefixOf(directory(real(zstr(p))), real(ft))) for p in pre.values()]
    ext = [z3.SuffixOf(z3.StringVal(s), ft) for s in importlib.machinery.EXTENSION_SUFFIXES]
    spec = Or(*under + ext + [z3.Contains(ft, z3.StringVal('site-packages'))])
    m.prove('exactly those with a file under a prefix, an extension module or in site-packages', mkb(m.truth(r)) == spec)


def mkb(x): return x if z3.is_expr(x) else z3.BoolVal(bool(x))


@unit('C13', 'is it imported', ['dill._dill:_is_imported_module'], covers=['loader', 'no loader'])
def is_imported(m):
    """any module and contents of sys.modules"""
    l = m.ctx.choose(3)
    loader = (ABSENT, NONE, m.sym('loader', Kind('loader', cons='ref', open=True)))[l]
    obj = m.sym('obj', Kind('mod', base=K_MODULE, attrs={'__loader__': loader}))
    found = z3.Bool('listed')
    m.overrides = dict(m.overrides)
    m.dicts[host_rid(sys.modules)] = DMap(m.ctx.fresh('sys_modules', DICT), (), K_STR, ANY)
    out, r = m.run(D._is_imported_module, [obj])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    if l == 2: m.cover('loader'); m.prove('a module with a loader is', m.truth(r)); return
    m.cover('no loader')
    # witness/arbitrary entry
    d = m.dmap(C(sys.modules)).array()
    k = m.ctx.fresh('k', V)
    if m.branch(r): return                      # (which entry it is cannot be told from the answer)
    m.prove('not listed in sys.modules under any name', Not(z3.Select(d, k) == OV.some(obj.t)))


def dict_of(m, o): return m.dmap(m.getattr(o, '__dict__')).array()


@unit(['C13', 'C29'], 'modules', ['registered for ModuleType'], covers=['by name', 'with state', 'core', 'runtime', 'a copy of it is saved'], max_paths=4000)
def module(m):
    """any module, pickler, session or not"""
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(D._is_builtin_module)] = lambda mm, a, kw: SBool(builtin_(V.rid(mm.force(a[0]).t)))
    m.overrides[host_rid(D._is_imported_module)] = lambda mm, a, kw: SBool(imported_(V.rid(mm.force(a[0]).t)))
    i, p = choose_pickler(m)
    obj = m.sym('obj', K_MODULE)
    if i < 2 and m.ctx.choose(2): m.attrs[p.addr]['_main'] = obj
    before = dict_of(m, obj)
    writes = []; m.on_attr_write = lambda v, name, x: writes.append((v, name))
    out, r = m.run(save_fn(types.ModuleType), [p, obj])
    m.on_attr_write = None
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('the module is not changed', And(dict_of(m, obj) == before, not [w for w in writes if m.is_(w[0], obj) is True]))
    name = m.getattr(obj, '__name__')
    evs = [e for e in events(m)]
    m.prove('one value is written', len(evs) == 1)
    if len(evs) != 1: return
    ev = evs[0]
    if i < 2 and m.branch(m.attrs[p.addr]['_session']) and m.branch(mkbool(And(m.is_(obj, m.attrs[p.addr]['_original_main']), Not(m.is_(obj, m.attrs[p.addr]['_main']))))):
        # a session in which a copy of the module is saved as the main module
        m.cover('a copy of it is saved'); m.prove('what represents the module in its session', ev.kind == 'save' and m.is_(ev.obj, m.attrs[p.addr]['_main'])); return
    m.prove('memoised under the module', m.is_(ev.obj, obj))
    main = i < 2 and m.branch(mkbool(m.is_(m.attrs[p.addr]['_main'], obj)))
    core = m.branch(mkbool(m.eq(name, C('dill._dill'))))
    special = core or m.branch(mkbool(m.eq(name, C('dill')))) or m.branch(mkbool(m.eq(name, C('builtins'))))
    isb = special or m.ctx.branch(builtin_(V.rid(obj.t)))
    if isb and not main:
        if ev.kind == 'global':
            m.cover('core'); m.prove('only the core module is stored as a name in its package', core and m.eq(ev.name, C('_dill'))); return
        m.cover('by name')
        m.prove('an import by name', ev.kind == 'reduce' and m.is_(ev.func, C(D._import_module)))
        if ev.kind != 'reduce': return
        a = m.iterate(ev.args)
        m.prove('of the module\'s own name', len(a) == 1 and m.eq(a[0], name))
        for n in ('state', 'listitems', 'dictitems', 'state_setter'): m.prove('and nothing else', m.is_(getattr(ev, n), NONE))
        return
    m.prove('an import by name', ev.kind == 'reduce' and m.is_(ev.func, C(D._import_module)))
    if ev.kind != 'reduce': return
    m.cover('with state')
    a = m.iterate(ev.args)
    m.prove('of one name', len(a) == 1)
    if m.ctx.branch(imported_(V.rid(obj.t))): m.prove('its own if it is imported', m.eq(a[0], name))
    else: m.cover('runtime'); m.prove("a '__runtime__.' name if it is not", m.eq(a[0], SStr(z3.Concat(z3.StringVal('__runtime__.'), zstr(name)))))
    m.prove('its state is a dictionary', m.pytype(ev.state) is dict)
    st = m.dmap(ev.state).array(); k = m.ctx.fresh('k', V)
    hidden = Or(k == term(C('__builtins__')), k == term(C('__loader__')))
    m.prove('holding every entry of the namespace but __builtins__ and __loader__', z3.Select(st, k) == z3.If(hidden, OV.absent, z3.Select(before, k)))
    m.prove('a copy of it', not m.is_(ev.state, m.getattr(obj, '__dict__')) is True)
    for n in ('listitems', 'dictitems', 'state_setter'): m.prove('and nothing else', m.is_(getattr(ev, n), NONE))


@unit(['C13', 'C29'], 'dictionaries', ['registered for dict'], covers=['main', 'child main', 'module', 'by value'], max_paths=6000)
def dictionary(m):
    """any dictionary, pickler and contents of sys.modules"""
    i, p = choose_pickler(m)
    themain = m.sym('main_module', K_MODULE)
    m.attrs.setdefault(host_rid(D), {})['_main_module'] = themain
    maindict = m.getattr(themain, '__dict__')
    which = m.ctx.choose(5)
    K_ENT = OneOf(K_MODULE, K_NONE, Kind('other', cons='ref', open=True, attrs={'__dict__': ABSENT}))
    m.dicts[host_rid(sys.modules)] = DMap(m.ctx.fresh('sys_modules', DICT), (), K_STR, K_ENT)
    pm, orig = m.attrs[p.addr].get('_main'), m.attrs[p.addr].get('_original_main')
    mod = m.sym('module', K_MODULE)
    if which == 0: obj = m.sym('obj', K_DICT)
    elif which == 1: obj = maindict
    elif which == 2: obj = m.getattr(mod, '__dict__')
    else:
        of = pm if which == 3 else orig
        if of is None: return
        obj = m.getattr(of, '__dict__')
    before = m.dmap(obj).array()
    main = False
    if i == 0: main = Or(m.is_(obj, m.getattr(pm, '__dict__')), And(m.truth(m.attrs[p.addr]['_session']), m.is_(obj, m.getattr(orig, '__dict__'))))
    first = i < 2 and m.branch(m.attrs[p.addr]['_session']) and m.branch(m.attrs[p.addr]['_first_pass'])
    imports = []
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(D._import_module)] = lambda mm, a, kw: imports.append(a) or NONE
    m.overrides[host_rid(__import__)] = lambda mm, a, kw: imports.append(a) or NONE
    out, r = m.run(save_fn(dict), [p, obj])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('the dictionary is not changed', m.dmap(obj).array() == before)
    m.prove('nothing is imported', not imports)
    evs = events(m)
    m.prove('one value is written', len(evs) == 1)
    if len(evs) != 1: return
    ev = evs[0]
    if ev.kind == 'save_dict':
        m.cover('by value'); m.prove('the dictionary itself', m.is_(ev.obj, obj))
        if i == 0 and not first: m.prove("not the main module's own", Not(main))
        if i == 0 and first: m.prove('only the first dictionary of a session', Not(m.attrs[p.addr]['_first_pass'].t) if isinstance(m.attrs[p.addr]['_first_pass'], S) else not m.attrs[p.addr]['_first_pass'].v)
        return
    m.prove('a global is written', ev.kind == 'write')
    if ev.kind != 'write': return
    d = ev.data
    if isinstance(d, C):
        if d.v == b'c__builtin__\n__main__\n':
            m.cover('main'); m.prove("only for the main module's own namespace", And(i == 0, main)); return
        m.prove("otherwise it names __main__'s namespace", d.v == b'c__main__\n__dict__\n')
        m.cover('child main'); m.prove("only for __main__'s own namespace", And(i != 0, m.is_(obj, maindict))); return
    m.cover('module')
    name = m.force(m.getitem(obj, C('__name__')))
    m.prove('its name is a string', m.pytype(name) is str)
    if m.pytype(name) is not str: return
    text = z3.Concat(z3.StringVal('c'), zstr(name), z3.StringVal('\n__dict__\n'))
    m.prove('otherwise it names a module, as the dictionary does', And(isinstance(d, SByt), d.t == ufun('str_encode', STR, STR)(text)))
    e = m.getitem(C(sys.modules), name)
    m.prove('whose own namespace it is', m.pytype(m.force(e)) is types.ModuleType and m.is_(m.getattr(e, '__dict__'), obj))
