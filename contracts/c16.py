"""what is saved by value and what as an import, with refimported"""
from contracts.sess import *
from types import SimpleNamespace
import collections

BOOK = ('__dill_imported', '__dill_imported_as', '__dill_imported_top_level')
K_OBJ = Kind('value', cons='any', open=True)
holds = ufun('held_by', z3.StringSort(), z3.StringSort(), V)      # the object module N (in sys.modules) holds under a name
held = ufun('holds', z3.StringSort(), z3.StringSort(), B)
entry = ufun('module_entry', z3.StringSort(), V)                   # sys.modules[name]
listed = ufun('is_listed', z3.StringSort(), B)                     # that entry is a module, not __main__ or __mp_main__


def zs(v): return zstr(v)


@unit('C16', 'looking an object up', ['dill.session:_lookup_module'], covers=['same name', 'other name', 'not found', 'nothing recorded', 'odd module name'], max_paths=6000)
def lookup(m):
    """any object, name and map of the imported modules"""
    m.overrides = dict(m.overrides)
    main = m.sym('main', K_ANYMOD)
    name = m.sym('name', K_STR)
    obj = m.sym('obj', ANY)
    mods = m.ctx.fresh('sys_modules', DICT); m.dicts[host_rid(sys.modules)] = DMap(mods, (), K_STR, K_ANYMOD)
    n1 = z3.Int('n_by_name'); n2 = z3.Int('n_by_id'); m.assume(n1 >= 0); m.assume(n2 >= 0)
    o1 = z3.Function('obj1', I, V); m1 = z3.Function('mod1', I, z3.StringSort())
    o2 = z3.Function('obj2', I, V); m2 = z3.Function('mod2', I, z3.StringSort()); k2 = z3.Function('name2', I, z3.StringSort())
    def known(o, mod, key):
        """contract of the map: the module of that name holds the object under that name"""
        m.assume(z3.And(z3.Not(OV.is_absent(z3.Select(mods, V.strv(mod)))), held(mod, key), holds(mod, key) == o))
    def by_name(mm, v, k):
        mm.prove('looked up under the name', mm.eq(k, name))
        def get(i): known(o1(i), m1(i), zs(name)); return T([mm.as_kind(o1(i), ANY), SStr(m1(i))])
        return mm.as_seq(n1, get)
    def by_id(mm, v, k):
        mm.prove('looked up under the identity of the object', term(k) == V.intv(idof(term(obj))))
        def get(i):
            known(o2(i), m2(i), k2(i)); mm.assume(o2(i) == term(obj))      # recorded under its identity, and alive
            return T([mm.as_kind(o2(i), ANY), SStr(k2(i)), SStr(m2(i))])
        return mm.as_seq(n2, get)
    def as_seq(n, get):
        l = m.sym('entries', K_LIST, old=False); m.lists[m.key(l, m.lists)] = LState([], n, get); return l
    m.as_seq = as_seq
    modmap = m.alloc(SimpleNamespace)
    m.attrs[modmap.addr] = {'by_name': m.sym('by_name', Kind('by_name', cons='ref', getitem=by_name)), 'by_id': m.sym('by_id', Kind('by_id', cons='ref', getitem=by_id)),
                            'top_level': m.sym('top_level', K_DICT)}
    modname = m.force(m.sym('its_module', OneOf(K_STR, K_NONE, K_INT, K_TUPLE)))
    plain = m.ctx.choose(2)
    m.setkind(obj.t, Kind('value', cons='any', open=True, attrs={'__module__': (lambda mm, s: modname) if plain else ABSENT}))
    if plain and not isinstance(modname, (C,)) and m.pytype(modname) is not str: m.cover('odd module name')
    m.env.obj_method_models[(type(SESS.IMPORTED_AS_MODULES[0]), 'fullmatch')] = lambda mm, o, a, kw: (mm.prove('only strings are matched', mm.pytype(a[0]) is str), SBool(ufun('matches', z3.StringSort(), B)(zs(a[0]))))[1] if mm.pytype(a[0]) is str else mm.raise_(TypeError, C('expected string'))
    st = {}
    def at(which):
        def h(mm, i, item, evs, out):
            mm.prove('an entry that does not fit is passed over', out == 'next')
        return h
    m.loopspecs['_lookup_module'] = [Iteration(at(1), lambda mm, seq: None), Iteration(at(2), lambda mm, seq: None)]
    m.loopspecs['_lookup_module'][0].when = lambda mm, s, fr: True
    out, r = m.run(SESS._lookup_module, [modmap, name, obj, main])
    m.prove('never raises', out == 'return')
    if out != 'return': return
    its = m.iterate(r)
    m.prove('a module and a name', len(its) == 2)
    if its[0] is NONE or m.is_(its[0], NONE) is True: m.cover('nothing recorded'); m.cover('not found'); m.prove('nothing or both', m.is_(its[1], NONE)); return
    m.prove('a module and a name', And(m.pytype(its[0]) is str, m.pytype(its[1]) is str))
    M, N = zs(its[0]), zs(its[1])
    if m.branch(mkbool(N == zs(name))): m.cover('same name')
    else: m.cover('other name')
    m.prove('that module holds the identical object under that name', And(held(M, N), holds(M, N) == term(obj)))
    m.prove('it is in sys.modules', z3.Not(OV.is_absent(z3.Select(mods, V.strv(M)))))
    m.prove('and is not the module being saved', OV.val(z3.Select(mods, V.strv(M))) != main.t)


class _NS: pass


@unit('C16', 'the map of imported modules', ['dill.session:_module_map'], covers=['a module', 'top level', 'a name', 'not a module', 'main'])
def module_map(m):
    """any sys.modules: everything recorded is held, under that name, by that module, which is not __main__"""
    K_ANY = OneOf(K_ANYMOD, K_NONE, Kind('other', cons='ref', nota=(types.ModuleType,)))
    mods = m.ctx.fresh('sys_modules', DICT); m.dicts[host_rid(sys.modules)] = DMap(mods, (), K_STR, K_ANY)
    ns = m.sym('map', Kind('map', cons='ref', open=False)); made = []
    log = []
    def ddict(mm, a, kw):
        mm.prove('missing entries are lists', len(a) == 1 and mm.is_(a[0], C(list)))
        tag = 'd%d' % len(made)
        def item(mm2, v, k):
            return mm2.sym('entries', Kind('entries', cons='ref', methods={'append': lambda m3, o, a, kw: (log.append((tag, k, a[0])), NONE)[1]}), old=False)
        d = mm.sym(tag, Kind(tag, cons='ref', getitem=item), old=False); made.append((tag, d)); return d
    m.env.model(collections.defaultdict, ddict)
    def simple(mm, a, kw):
        mm.prove('three maps', set(kw) == {'by_name', 'by_id', 'top_level'})
        m.attrs[m.key(ns, m.attrs, True)] = dict(kw); return ns
    m.env.model(SimpleNamespace, simple)
    def tag(v):
        for t, d in made:
            if v is d: return t
    st = {}
    def before(mm, i, seq): st['top'] = None; st['log'] = len(log)
    def setitem(v, k, x): pass
    def inner_at(mm, i, item, evs, out):
        k, v = mm.unpack(item, 2)
        mm.cover('a name')
        at = m.attrs[m.key(ns, m.attrs)]
        new = log
        modname, module = st['cur']
        mm.prove('recorded once by name and once by identity', len(new) == 2 and out == 'next')
        if len(new) != 2: return
        for t, key, x in new:
            x = mm.iterate(x)
            if t == tag(at['by_name']):
                mm.prove('by name: the object and the module', And(mm.eq(key, k), len(x) == 2 and And(mm.is_(x[0], v), mm.is_(x[1], modname))))
            else:
                mm.prove('by identity: the object, its name and the module', And(term(key) == V.intv(idof(term(v))), len(x) == 3 and And(mm.is_(x[0], v), mm.is_(x[1], k), mm.is_(x[2], modname))))
        mm.prove('both maps', {t for t, _, _ in new} == {tag(at['by_name']), tag(at['by_id'])})
        mm.prove('only what a module other than __main__ holds', mm.is_(st['dict'], mm.getattr(module, '__dict__')))
    def inner_before(mm, i, seq): del log[:]
    def outer_at(mm, i, item, evs, out):
        k, v = mm.unpack(item, 2)
        at = m.attrs[m.key(ns, m.attrs)]
        top = mm.dmap(at['top_level']).writes
        ismod = mm.isinst_formula(mm.force(v), types.ModuleType)
        main = Or(mm.eq(k, C('__main__')), mm.eq(k, C('__mp_main__')))
        dotted = z3.Contains(zs(k), z3.StringVal('.'))
        mm.prove('the loop goes on', out == 'next')
        if top:
            mm.cover('top level')
            mm.prove('a top-level name for its own module', And(ismod, Not(main), Not(dotted), len(top) == 1, term(top[0][0]) == V.intv(idof(term(v))), mm.is_(top[0][1], k)))
        elif st.get('entered'): mm.cover('a module'); mm.prove('every undotted module has a top-level name', dotted)
        else:
            mm.cover('not a module'); mm.cover('main')
            mm.prove('only non-modules and __main__ are passed over', Or(Not(ismod), main))
    def inner_after(mm, seq): st['entered'] = True
    def outer_before(mm, i, seq): st.clear(); st['seq'] = (i, seq)
    inner = Iteration(inner_at, inner_after, before_iter=inner_before)
    outer = Iteration(outer_at, lambda mm, seq: None, before_iter=outer_before)
    def when_inner(mm, s, fr):
        if 'seq' not in st: return False
        i, seq = st['seq']; st['cur'] = mm.unpack(seq.get(i), 2)
        its = mm.eval(s.iter, fr)
        meta = mm.objs[its.addr].meta if isinstance(its, O) else None
        if not (isinstance(meta, tuple) and meta[:2] == ('view', 'items')): return False
        st['dict'] = meta[2]
        return True
    inner.when = when_inner
    m.loopspecs['_module_map'] = [inner, outer]
    b = m.dmap(C(sys.modules)).array()
    out, r = m.run(SESS._module_map, [])
    m.prove('returns the map', out == 'return' and m.is_(r, ns))
    m.prove('sys.modules is not changed', m.dmap(C(sys.modules)).array() == b)


ROLES = {}


@unit(['C16', 'C29'], 'stashing', ['dill.session:_stash_modules'], covers=['self-reference', 'own dictionary', 'singleton', 'built-in module', 'import', 'import as', 'top level', 'by value', 'a copy', 'unchanged', 'loader trick'], max_paths=8000)
def stash(m):
    """any module: an arbitrary name of it, and then the saved copy"""
    ROLES_ = ROLES
    m.overrides = dict(m.overrides)
    main = m.sym('main', K_ANYMOD)
    md = m.getattr(main, '__dict__')
    new = m.sym('newmod', K_ANYMOD, old=False); m.assume(new.t != main.t)
    anyk = m.sym('any_name', K_STR)
    def upd(mm, o, a, kw):
        mm.prove('the copy is filled with what is kept', len(a) == 1 and not kw and isinstance(a[0], O) and a[0].addr == ROLES_.get('original'))
        old, src = mm.dmap(nd).array(), mm.dmap(a[0]).array()
        arr = mm.ctx.fresh('filled', DICT)
        mm.assume(z3.Select(arr, term(anyk)) == z3.If(OV.is_absent(z3.Select(src, term(anyk))), z3.Select(old, term(anyk)), z3.Select(src, term(anyk))))
        mm.dmap(nd).base = arr; mm.dmap(nd).writes[:] = []
        return NONE
    nd = m.sym('newdict', Kind('newdict', pytype=dict, cons='ref', dictkinds=(K_STR, ANY), methods={'update': upd}), old=False)
    m.assume(z3.Distinct(V.rid(nd.t), V.rid(md.t)))
    m.attrs[m.key(new, m.attrs, True)] = {'__name__': m.sym('newname', K_STR), '__dict__': nd}
    made = []
    m.env.model(types.ModuleType, lambda mm, a, kw: (made.append(a), new)[1])
    # the module's default attributes
    loader = m.ctx.choose(2)
    top = m.ctx.fresh('top_level', DICT)
    modmap = m.alloc(SimpleNamespace); tl = m.sym('top_level', Kind('top_level', pytype=dict, cons='ref', dictkinds=(K_INT, K_STR)))
    m.attrs[modmap.addr] = {'by_name': m.sym('by_name', ANYREF), 'by_id': m.sym('by_id', ANYREF), 'top_level': tl}
    m.overrides[host_rid(SESS._module_map)] = lambda mm, a, kw: modmap
    looked = []
    def lookup_(mm, a, kw):
        mm.prove('looked up in this map, for this module', And(mm.is_(a[0], modmap), mm.is_(a[3], main)))
        if mm.ctx.choose(2): r = [NONE, NONE]
        else: r = [mm.sym('source', K_STR), mm.sym('objname', K_STR)]
        looked.append((a[1], a[2], r)); return T(r)
    m.overrides[host_rid(SESS._lookup_module)] = lookup_
    builtin = ufun('is_builtin_module', V, B)
    m.overrides[host_rid(D._is_builtin_module)] = lambda mm, a, kw: SBool(builtin(term(a[0])))
    isimp = z3.Bool('main_is_imported')
    m.overrides[host_rid(D._is_imported_module)] = lambda mm, a, kw: (mm.prove('asked of the module', mm.is_(a[0], main)), SBool(isimp))[1]
    objs0 = set(m.objs); dicts0 = set(m.dicts)
    def fresh_dicts(): return [k for k in m.dicts if k in m.objs and k not in objs0 and m.objs[k].pytype is dict]
    def fresh_lists(): return [k for k in m.lists if k in m.objs and k not in objs0 and m.objs[k].pytype is list]
    b_main = m.dmap(md).array()
    def at(mm, i, item, evs, out):
        k, v = mm.unpack(item, 2)
        mm.prove('the loop goes on', out == 'next')
        ds = [a for a in fresh_dicts() if mm.dicts[a].writes]; ls = [a for a in fresh_lists() if mm.lists[a].items]
        mm.prove('each name is kept or recorded exactly once', len(ds) + len(ls) == 1 and all(len(mm.dicts[a].writes) == 1 for a in ds) and all(len(mm.lists[a].items) == 1 for a in ls))
        if len(ds) + len(ls) != 1: return
        v_ = mm.force(v)
        isself = mm.is_(v_, main); isdict = mm.is_(v_, md)
        single = Or(mm.is_(v_, NONE), mm.is_(v_, C(True)), mm.is_(v_, C(False)))
        bim = And(mm.isinst_formula(v_, types.ModuleType), builtin(term(v_)))
        kept = Or(isself, isdict, single, bim)
        found = looked and looked[-1][2][0] is not NONE
        for q, o, r in looked: mm.prove('looked up by its name and itself', And(mm.is_(q, k), mm.is_(o, v)))
        if ds:
            ROLES_['original'] = ds[0]
            kk, x = mm.dicts[ds[0]].writes[0]
            mm.prove('kept under its own name', mm.is_(kk, k))
            if mm.branch(mkbool(isself)): mm.cover('self-reference'); mm.prove('a reference of the module to itself is redirected to the copy', mm.is_(x, new)); return
            if mm.branch(mkbool(isdict)): mm.cover('own dictionary'); mm.prove('a reference to its dictionary is redirected to that of the copy', mm.is_(x, nd)); return
            mm.prove('kept as it is', mm.is_(x, v))
            if mm.branch(mkbool(single)): mm.cover('singleton')
            elif mm.branch(mkbool(bim)): mm.cover('built-in module')
            else: mm.cover('by value'); mm.prove('kept only if it is not found and not a top-level module', And(not found, OV.is_absent(z3.Select(mm.dmap(tl).array(), V.intv(idof(term(v_)))))))
        else:
            mm.prove('the module itself, its dictionary, singletons and built-in modules are kept', Not(kept))
            x = mm.iterate(mm.lists[ls[0]].items[0])
            if found:
                src, on = looked[-1][2]
                role = 'imported' if len(x) == 2 else 'imported_as'
                mm.cover('import' if len(x) == 2 else 'import as')
                if len(x) == 2: mm.prove('the place it is found at, under the same name', And(mm.is_(x[0], src), mm.is_(x[1], k), mm.eq(on, k)))
                else: mm.prove('the place it is found at, and its name', And(mm.is_(x[0], src), len(x) == 3 and And(mm.is_(x[1], on), mm.is_(x[2], k))))
            else:
                role = 'top'; mm.cover('top level')
                ent = z3.Select(mm.dmap(tl).array(), V.intv(idof(term(v_))))
                mm.prove('the top-level module and the name', len(x) == 2 and And(z3.Not(OV.is_absent(ent)), term(x[0]) == OV.val(ent), mm.is_(x[1], k)))
            mm.prove('each kind has its own list', ROLES_.setdefault(role, ls[0]) == ls[0])
    count = {}
    def after(mm, seq):
        mm.prove('one dictionary is filled', 'original' in ROLES_ and ROLES_['original'] in mm.dicts)
        a = ROLES_['original']
        arr = mm.ctx.fresh('original', DICT)
        mm.dicts[a].base = arr; mm.dicts[a].writes[:] = []
        count['arr'] = arr
        for r in ('imported', 'imported_as', 'top'):
            if r in ROLES_: n = mm.ctx.fresh('n_' + r, I); mm.assume(n >= 0); f = z3.Function('item_' + r, I, V); mm.lists[ROLES_[r]] = LState([], n, lambda i, f=f: mm.as_kind(f(i), K_TUPLE)); count[r] = n
        # each name once: as many as there are names
        mm.assume(dsize(arr) + sum(count.get(r, 0) for r in ('imported', 'imported_as', 'top')) == dsize(b_main))
    m.loopspecs['_stash_modules'] = [Iteration(at, after)]
    writes = []
    m.on_attr_write = lambda v, name, x: writes.append((v, name, x))
    out, r = m.run(SESS._stash_modules, [main])
    m.on_attr_write = None
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('the module being saved is not changed', And(m.dmap(md).array() == b_main, *[Not(m.is_(w[0], main)) for w in writes]))
    m.prove('the copy has the name of the module', len(made) == 1 and len(made[0]) >= 1 and m.is_(made[0][0], m.getattr(main, '__name__')))
    recorded = sum(count.get(r_, 0) for r_ in ('imported', 'imported_as', 'top'))
    if m.is_(r, main) is True:
        m.cover('unchanged')
        m.prove('the module itself is saved only if nothing is recorded', recorded == 0)
        return
    m.cover('a copy')
    m.prove('the copy is returned', m.is_(r, new))
    at_ = {n: x for v, n, x in writes if v is new or m.is_(v, new) is True}
    for k, role in zip(BOOK, ('imported', 'imported_as', 'top')):
        m.prove('what is recorded is stored in the copy', k in at_ and isinstance(at_[k], O) and at_[k].addr == ROLES_.get(role))
    extra = set(at_) - set(BOOK)
    m.prove('nothing else is stored but the loader mark', extra <= {'__loader__'})
    if '__loader__' in at_: m.cover('loader trick'); m.prove('only for imported modules without a loader', isimp)
    k = anyk
    d = z3.Select(m.dmap(nd).array(), term(k)); o = z3.Select(count['arr'], term(k))
    m.prove('every name kept is in the copy, as kept', Implies(z3.And(z3.Not(OV.is_absent(o)), *[term(k) != term(C(x)) for x in BOOK + ('__loader__',)]), d == o))


@unit(['C16', 'C29'], 'restoring', ['dill.session:_restore_modules'], covers=['an import', 'an import as', 'a module', 'a lookup fails', 'older session', 'done'], max_paths=4000)
def restore(m):
    """any loaded module with any bookkeeping (or, from older sessions, some of it missing)"""
    m.overrides = dict(m.overrides)
    main = m.sym('main', K_ANYMOD); md = m.getattr(main, '__dict__')
    have = [bool(m.ctx.choose(2)) for _ in BOOK]
    lists = {}
    arr0 = m.ctx.fresh('main_dict', DICT)
    for k, h, w in zip(BOOK, have, (2, 3, 2)):
        ent = z3.Select(arr0, term(C(k)))
        if not h: m.assume(OV.is_absent(ent)); continue
        l = m.sym(k, Kind(k, pytype=list, cons='ref')); lists[k] = l
        n = z3.Int('n' + k); m.assume(n >= 0)
        fs = [z3.Function('f%s%d' % (k, j), I, z3.StringSort()) for j in range(w)]
        m.assume(ent == OV.some(l.t)); m.setkind(OV.val(ent), m.kind(l))
        st = LState([], n, lambda i, fs=fs: T([SStr(f(i)) for f in fs]))
        m.lists[m.key(l, m.lists)] = st; m.lists[m.key(S(OV.val(ent)), m.lists)] = st
    m.dicts[m.key(md, m.dicts)] = DMap(arr0, (), K_STR, ANY)
    if len(lists) > 1: m.assume(z3.Distinct(*[V.rid(l.t) for l in lists.values()]))
    if not all(have): m.cover('older session')
    log = []
    def lookup_(what):
        def h(mm, a, kw):
            a = a[1:] if what == 'find' and len(a) == 3 else a
            if mm.ctx.choose(2): log.append((what, a, None)); raise PyRaise(mm.sym_exc('lookup_failed'))
            x = mm.sym('found', ANY); log.append((what, a, x)); return x
        return h
    u = m.sym('unpickler', Kind('unpickler', cons='ref', isa=(D.Unpickler,), methods={'find_class': lambda mm, o, a, kw: lookup_('find')(mm, a, kw)}))
    m.env.model(__import__, lookup_('import'))
    st = {}
    def before(mm, i, seq): st['d'] = mm.dmap(md).array(); st['w'] = len(mm.dmap(md).writes); del log[:]
    def at(mm, i, item, evs, out):
        its = mm.iterate(item); name = its[-1]
        w = mm.dmap(md).writes[st['w']:]
        mm.prove('the loop goes on', out == 'next')
        mm.prove('looked up once', len(log) == 1)
        if len(log) != 1: return
        what, a, x = log[0]
        src = item_of(its)
        if what == 'find': mm.cover('an import as' if len(its) == 3 else 'an import'); mm.prove('the object at the recorded place', And(mm.is_(a[0], its[0]), mm.is_(a[1], its[1])))
        else: mm.cover('a module'); mm.prove('the module of that name', And(len(its) == 2, mm.is_(a[0], its[0])))
        mm.prove('the name, and nothing else, is bound to what is found', mm.dmap(md).array() == z3.Store(st['d'], term(name), OV.some(term(x))))
    def item_of(its): return its
    seen = []
    def after(mm, seq):
        # any names are bound now; the bookkeeping names are not among them
        keep = [(C(k), mm.dget(md, C(k))) for k in BOOK]
        d = mm.dmap(md); d.base = mm.ctx.fresh('bound', DICT); d.writes[:] = keep
        seen.append(1)
    m.loopspecs['_restore_modules'] = [Iteration(at, after, before_iter=before)]
    out, r = m.run(SESS._restore_modules, [u, main])
    if out == 'raise':
        m.cover('a lookup fails')
        m.prove('raises only what a lookup raises', len(log) >= 1 and log[-1][2] is None)
        return
    m.prove('a lookup that fails is reported', all(x is not None for _, _, x in log))
    m.cover('done')
    m.prove('every list is gone through', len(seen) == sum(have))
    now = m.dmap(md).array()
    m.prove('no bookkeeping name is left', And(*[OV.is_absent(z3.Select(now, term(C(k)))) for k in BOOK]))
