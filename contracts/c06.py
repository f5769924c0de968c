"""save_type on an arbitrary class, and what loading its pickle builds"""
from contracts.fn import *
import contracts.c11
import abc, collections

K_NS = Kind('namespace', pytype=dict, cons='ref', dictkinds=(K_STR, ANY))
SPECIAL = [t for t in (type(None), D.NotImplementedType, D.EllipsisType, D.EnumMeta, D.ExceptHookArgsType) if t is not None]


def class_env(m, nt=False, sub=False):
    """any class (that is not one of the built-in singletons' classes) and any pickler"""
    e = Env_()
    e.ns = m.sym('namespace', K_NS)
    e.bases = m.sym('bases', Kind('bases', cons='ref', isa=(tuple,), eq=lambda mm, s, o: mm.prove('compared with (tuple,)', isinstance(o, (T, C))) or e.tuple_base))
    e.tuple_base = True if nt else bool(m.ctx.choose(2))
    e.meta = m.sym('metaclass', K_TYPE)
    e.isabc = z3.Bool('isabc')
    e.d = {'__name__': m.sym('name', K_STR), '__qualname__': m.sym('qualname', K_STR), '__module__': m.sym('module', K_STR), '__bases__': e.bases, '__dict__': e.ns,
           '__orig_bases__': m.sym('orig_bases', ANYREF)}
    e.obj = m.sym('cls', Kind('class', cons='ref', isa=(type,)))
    have = ['_fields', '_asdict', '_make', '_replace']
    if not nt:
        skip = m.ctx.choose(5) if e.tuple_base else 0
        for i, n in enumerate(have):
            if e.tuple_base and i + 1 != skip and skip: e.d[n] = m.sym(n, ANY)
    else:
        for n in have: e.d[n] = m.sym(n, ANY)
    m.attrs[m.key(e.obj, m.attrs, True)] = dict(e.d)
    for t in SPECIAL: m.assume(V.rid(e.obj.t) != host_rid(t))
    m.assume(typeof(e.obj.t) == e.meta.t)
    m.assume(inst_fn(abc.ABCMeta)(e.obj.t) == e.isabc)
    m.assume(z3.Distinct(*[V.rid(x.t) for x in (e.obj, e.bases, e.meta, e.ns, e.d['__orig_bases__'])]))
    for x in (e.obj, e.bases, e.meta, e.ns, e.d['__orig_bases__']): m.assume(V.rid(x.t) >= 0)
    m.assume(ufun('subclass_type_%d' % -host_rid(type), V, B)(e.meta.t))      # the class of a class
    m.dicts[host_rid(D._typemap)] = DMap(m.ctx.fresh('typemap', DICT), (), K_TYPE, K_STR)
    m.assume(OV.is_absent(z3.Select(m.dmap(C(D._typemap)).array(), e.obj.t)))
    e.i = m.ctx.choose(3)
    m.overrides = dict(m.overrides)
    if e.i < 2:
        e.pp = m.sym('postproc', Kind('postproc', pytype=dict, cons='ref', dictkinds=(K_INT, ANY)))
        m.assume(V.rid(e.pp.t) != V.rid(e.ns.t))
        e.p = mk_pickler(m, e.i, _postproc=e.pp)
    else: e.pp = None; e.p = mk_pickler(m, 2)
    pa = m.attrs[e.p.addr]
    e.byref = m.truth(pa['_byref']) if '_byref' in pa else False
    e.recursive = (z3.Not(OV.is_absent(z3.Select(m.dmap(e.pp).array(), term(SInt(idof(e.obj.t)))))) if e.pp is not None else False)
    e.located = m.ctx.fresh('located', B)
    m.overrides[host_rid(D._locate_function)] = lambda mm, a, kw: (mm.prove('the class itself is looked up', mm.is_(a[0], e.obj)), SBool(e.located))[1]
    e.own = []; e.red = None; e.memo_obj = None
    def swp(mm, a, kw):
        d = dict(zip(['pickler', 'reduction', 'is_pickler_dill', 'obj', 'postproc_list'], a)); d.update(kw)
        mm.prove('written with this pickler, under the class', And(mm.is_(d['pickler'], e.p), mm.is_(d.get('obj', NONE), e.obj)))
        red = mm.iterate(d['reduction']) + [NONE] * 4
        mm.trace.append(Ev('reduce', pickler=d['pickler'], obj=d.get('obj'), func=red[0], args=red[1], state=red[2], listitems=red[3], dictitems=red[4], state_setter=NONE))
        l = d.get('postproc_list', NONE)
        if mm.is_(l, NONE) is not True: mm.prove('deferred work is listed', mm.lstate(l).n is None); e.own = list(mm.lstate(l).items)
        return NONE
    m.overrides[host_rid(D._save_with_postproc)] = swp
    m.env.model(warnings.warn, lambda mm, a, kw: NONE)
    # the copy of the namespace, its slots, and what the abstract base class machinery adds
    e.abc = None
    def typedict_abc(mm, a, kw):
        mm.prove('the registry of this class', mm.is_(a[0], e.obj))
        mark = mm.sym('register', ANYREF)
        mm.call_method(a[3], 'append', [mark])
        mm.call_method(a[1], 'pop', [C('_abc_impl'), NONE])
        e.abc = mark
        return T([a[1], a[2]])
    m.overrides[host_rid(D._get_typedict_abc)] = typedict_abc
    e.slots = z3.Const('slots', z3.ArraySort(V, B))
    e.key = m.sym('entry', K_STR)           # an arbitrary entry of the namespace
    e.keys = [term(e.key)] + [term(C(x)) for x in ('_abc_impl', '__orig_bases__', '__dict__', '__weakref__', '__qualname__')]
    e.popped = False
    def before(mm, i, seq): e.st = mm.dmap(e.copy()).array()
    def find():
        # the dictionary being filtered: the only new dictionary with symbolic contents
        c = [k for k, d in m.dicts.items() if k in m.objs and k not in e.dicts0 and d.base is not None]
        m.prove('the namespace is copied', len(c) >= 1)
        return O(c[0])
    e.copy = find
    def at(mm, i, item, evs, out):
        now = mm.dmap(e.copy()).array()
        mm.cover('a slot name')
        mm.prove('exactly the entry of this name is dropped', now == z3.Store(e.st, term(item), OV.absent))
        mm.prove('the loop goes on', out == 'next')
    def after(mm, seq):
        d = mm.dmap(e.copy()); old = d.array()
        new = mm.ctx.fresh('namespace_without_slots', DICT)
        mm.assume([z3.Select(new, k) == z3.If(z3.Select(e.slots, k), OV.absent, z3.Select(old, k)) for k in e.keys])
        d.base = new; d.writes[:] = []
        e.popped = True
    m.loopspecs['save_type'] = [Iteration(at, after, before_iter=before)]
    e.dicts0 = set(m.dicts)
    return e


def slots_decl(m, e):
    """the __slots__ declaration: absent, one name, or an iterable of names"""
    c = m.ctx.choose(3)
    e.slots_form = c
    ent = z3.Select(m.dmap(e.ns).array(), V.strv(z3.StringVal('__slots__')))
    if c == 0: m.assume(OV.is_absent(ent)); return
    if c == 1:
        e.slot = m.sym('slot', K_STR); m.assume(ent == OV.some(term(e.slot))); return
    s = m.sym('slots', Kind('slots', pytype=tuple if m.ctx.choose(2) else list, cons='ref', iter=lambda mm, v: mm.slotseq))
    n = z3.Int('nslots'); nth = z3.Function('slot_at', I, z3.StringSort())
    m.assume(n >= 0)
    def get(i):
        k = V.strv(nth(i)); return SStr(nth(i))
    m.slotseq = Seq(n, get)
    m.assume(ent == OV.some(s.t)); m.setkind(OV.val(ent), m.kind(s)); m.assume(V.rid(s.t) >= 0)
    m.assume(V.rid(s.t) != V.rid(e.ns.t))


@unit(['C06', 'C03'], 'classes', ['registered for type', 'dill._dill:_get_typedict_type'],
      covers=['by value', 'by name', 'a slot name', 'one slot', 'no slots', 'several slots', 'abstract', 'generic'], max_paths=12000, seconds=600)
def classes(m):
    """any class and pickler: name, bases, metaclass, namespace, slots; by value exactly if it is not located"""
    e = class_env(m)
    slots_decl(m, e)
    b_ns = m.dmap(e.ns).array(); b_at = dict(m.attrs[m.key(e.obj, m.attrs)])
    writes = []; m.on_attr_write = lambda v, name, x: writes.append((v, name))
    part = lambda mm, a, kw: (lambda o: (mm.attrs.__setitem__(o.addr, {'func': a[0], 'args': T(a[1:]), 'keywords': kw}), o)[1])(mm.alloc(D.PartialType))
    m.env.model(D.PartialType, part)
    out, r = m.run(save_fn(type), [e.p, e.obj])
    m.on_attr_write = None
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('the class is not changed', And(m.dmap(e.ns).array() == b_ns, not writes))
    evs = [x for x in events(m) if x.kind != 'write']
    value = And(Not(e.byref), Not(e.recursive), Not(e.located))
    m.prove('one value is written', len(evs) == 1)
    if len(evs) != 1: return
    ev = evs[0]
    if ev.kind == 'global':
        m.cover('by name')
        m.prove('by name only if it is located, byref is set, or the class is being pickled already', Not(value))
        m.prove('its qualified name', And(m.is_(ev.obj, e.obj), m.eq(ev.name, e.d['__qualname__'])))
        m.prove('nothing is deferred', not e.own)
        return
    m.prove('stored by value', ev.kind == 'reduce')
    m.cover('by value')
    m.prove('by value only if it is not located, byref is not set and it is not being pickled already', value)
    args = m.iterate(ev.args)
    # deferred: the registry of an abstract class, then the qualified name
    own = list(e.own)
    isabc = m.ctx.branch(e.isabc)
    if isabc:
        m.cover('abstract')
        m.prove('the virtual subclasses are registered when the class is complete', e.abc is not None and len([x for x in own if m.is_(x, e.abc) is True or x is e.abc]) == 1)
        own = [x for x in own if x is not e.abc and m.is_(x, e.abc) is not True]
    else: m.prove('no registry', e.abc is None)
    m.prove('the qualified name is set when the class is complete', len(own) == 1)
    if len(own) != 1: return
    it = m.iterate(own[0]); a = m.iterate(it[1])
    m.prove('the qualified name is set when the class is complete', And(m.is_(it[0], C(setattr)), len(a) == 3 and And(m.is_(a[0], e.obj), m.eq(a[1], C('__qualname__')), m.is_(a[2], e.d['__qualname__']))))
    def namespace(d):
        """at an arbitrary entry"""
        now = z3.Select(m.dmap(d).array(), term(e.key))
        was = z3.Select(b_ns, term(e.key))
        gone = [term(e.key) == V.strv(z3.StringVal(x)) for x in ('__dict__', '__weakref__') + (('_abc_impl',) if isabc else ())]
        if e.slots_form == 0: m.cover('no slots'); s = z3.BoolVal(False)
        elif e.slots_form == 1: m.cover('one slot'); s = term(e.key) == term(e.slot)
        else: m.cover('several slots'); s = z3.Select(e.slots, term(e.key))
        m.prove('the namespace without what the interpreter makes', now == z3.If(z3.Or(s, *gone), OV.absent, was))
    orig = z3.Not(OV.is_absent(z3.Select(b_ns, V.strv(z3.StringVal('__orig_bases__')))))
    if m.is_(ev.func, C(D._create_type)) is True:
        m.prove('bases are original ones unless declared otherwise', z3.Not(orig))
        m.prove('metaclass, name, bases, namespace', len(args) == 4)
        m.prove('the metaclass', m.is_(args[0], e.meta))
        m.prove('the name', m.is_(args[1], e.d['__name__']))
        m.prove('the bases', m.is_(args[2], e.bases))
        namespace(args[3])
        made = []
        new = m.sym('new', ANYREF)
        m.setkind(args[0].t, Kind('meta', isa=(type,), cons='ref', open=True, call=lambda mm, f, a, kw: (made.append((a, kw)), new)[1]))
        o2, r2 = m.run(D._create_type, args)
        m.prove('loading calls the metaclass once, with name, bases and namespace', o2 == 'return' and m.is_(r2, new) and len(made) == 1)
        if len(made) == 1: m.prove('loading calls the metaclass once, with name, bases and namespace', len(made[0][0]) == 3 and not made[0][1] and And(*[m.is_(x, y) for x, y in zip(made[0][0], args[1:])]))
    else:
        m.prove('a class with its own __orig_bases__', And(m.is_(ev.func, C(types.new_class)), orig))
        m.prove('name, bases, metaclass, namespace', len(args) == 4)
        m.prove('the name', m.is_(args[0], e.d['__name__']))
        m.prove('the bases as written', m.is_(args[1], e.d['__orig_bases__']))
        md = m.dmap(args[2])
        m.prove('the metaclass', And(m.pytype(args[2]) is dict, md.base is None and len(md.writes) == 1, m.is_(m.dget(args[2], C('metaclass')), e.meta)))
        if m.is_(args[3], NONE) is True:
            namespace(m.new_dict())
        else:
            m.cover('generic')
            pa = m.attrs[args[3].addr]
            m.prove('the namespace is filled with the entries', And(m.is_(pa['func'], C(D._setitems)), len(m.iterate(pa['args'])) == 0, set(pa['keywords']) == {'source'}))
            namespace(pa['keywords']['source'])


@unit('C06', 'the type table', ['dill._dill:_load_type'], covers=['every entry'])
def table(m):
    """every class in the table of built-in types is loaded by the name it is stored under (the table is finite: each entry)"""
    m.cover('every entry')
    for t, n in list(D._typemap.items()):
        out, r = m.run(D._load_type, [C(n)])
        m.prove('the name of the class loads as that class', out == 'return' and m.is_(r, C(t)))


@unit('C06', 'built-in classes', ['registered for type'], covers=['stored under its name in the table'])
def builtin(m):
    """any class in the table of built-in types"""
    obj = m.sym('cls', Kind('class', cons='ref', isa=(type,)))
    name = m.sym('name', K_STR)
    m.dicts[host_rid(D._typemap)] = DMap(m.ctx.fresh('typemap', DICT), (), K_TYPE, K_STR)
    m.assume(z3.Select(m.dmap(C(D._typemap)).array(), obj.t) == OV.some(term(name)))
    i, p = choose_pickler(m)
    out, r = m.run(save_fn(type), [p, obj])
    m.prove('returns normally', out == 'return')
    evs = reduces(m)
    m.prove('one value is written', len(evs) == 1 and len(events(m)) == 1)
    if len(evs) != 1: return
    m.cover('stored under its name in the table')
    a = m.iterate(evs[0].args)
    m.prove('its name, looked up in the table when loading', And(m.is_(evs[0].func, C(D._load_type)), m.is_(evs[0].obj, obj), len(a) == 1 and m.eq(a[0], name)))


@unit('C06', 'classes of singletons', ['registered for type'], covers=['written'])
def singletons(m):
    """the classes that are not importable by their own name"""
    t = SPECIAL[m.ctx.choose(len(SPECIAL))]
    m.dicts[host_rid(D._typemap)] = DMap(m.ctx.fresh('typemap', DICT), (), K_TYPE, K_STR)
    m.assume(OV.is_absent(z3.Select(m.dmap(C(D._typemap)).array(), term(C(t)))))
    i, p = choose_pickler(m)
    out, r = m.run(save_fn(type), [p, C(t)])
    m.prove('returns normally', out == 'return')
    evs = events(m)
    m.prove('one value is written', len(evs) == 1)
    if len(evs) != 1: return
    m.cover('written'); ev = evs[0]
    if ev.kind == 'reduce':
        m.prove('the class is the type of its instance', And(m.is_(ev.func, C(type)), m.is_(ev.obj, C(t))))
        a = m.iterate(ev.args); m.prove('the class is the type of its instance', len(a) == 1 and isinstance(a[0], C) and type(a[0].v) is t)
    elif ev.kind == 'write':
        m.prove('a module and a name are written', isinstance(ev.data, C) and ev.data.v[:1] == pickle.GLOBAL and ev.data.v.count(b'\n') == 2 and ev.data.v.endswith(b'\n'))
        if not isinstance(ev.data, C): return
        mod, name = ev.data.v[1:-1].decode().split('\n')
        m.prove('they are those of the class', (mod, name) == ('__builtin__', 'NoneType') and t is type(None) or mod != '__builtin__' and getattr(__import__(mod), name, None) is t)
    else: m.prove('by its name', ev.kind == 'global' and And(m.is_(ev.obj, C(t))))


@unit('C06', 'filling a dictionary', ['dill._dill:_setitems'], covers=['an entry'])
def setitems(m):
    """any number of entries, each set as it is in the source, in a new namespace"""
    dest = m.sym('dest', K_G); src = m.sym('source', K_G)
    m.assume(V.rid(dest.t) != V.rid(src.t))
    st = {}
    def before(mm, i, seq): st['d'] = mm.dmap(dest).array(); st['w'] = len(mm.dmap(dest).writes)
    def at(mm, i, item, evs, out):
        k, v = mm.unpack(item, 2)
        mm.cover('an entry')
        had = z3.Not(OV.is_absent(z3.Select(st['d'], term(k))))
        mm.prove('exactly this entry is set', Or(had, mm.dmap(dest).array() == z3.Store(st['d'], term(k), OV.some(term(v)))))
        mm.prove('the loop goes on', out == 'next')
    m.loopspecs['_setitems'] = [Iteration(at, lambda mm, seq: None, before_iter=before)]
    b = m.dmap(src).array()
    out, r = m.run(D._setitems, [dest, src])
    m.prove('returns nothing', out == 'return' and m.is_(r, NONE))
    m.prove('the source is not changed', m.dmap(src).array() == b)


@unit('C06', 'abstract classes', ['dill._dill:_get_typedict_abc'], covers=['a virtual subclass', 'filtered'])
def abstract(m):
    """any abstract class with any number of virtual subclasses"""
    reg = m.sym('register', ANYREF)
    obj = m.sym('cls', Kind('class', cons='ref', isa=(type,), open=True, attrs={'register': lambda mm, s: reg}))
    ns = m.sym('namespace', K_NS); attrs = m.force(m.sym('attrs', OneOf(K_NONE, K_DICT)))
    n = z3.Int('registered'); m.assume(n >= 0)
    ref_at = z3.Function('ref_at', I, V); of = z3.Function('referent', V, V)
    def get(i):
        t = ref_at(i); m.assume(z3.And(V.is_ref(t), V.rid(t) >= 0, V.rid(t) < OLD_MAX))
        m.setkind(t, Kind('weakref', cons='ref', call=lambda mm, f, a, kw: (mm.prove('the reference is followed', not a and not kw), mm.as_kind(of(term(f)), K_TYPE))[1]))
        return S(t)
    registry = m.sym('registry', Kind('registry', pytype=set, cons='ref', iter=lambda mm, v: Seq(n, get)))
    asked = []
    m.env.model(abc._get_dump, lambda mm, a, kw: (asked.append(a[0]), T([registry, mm.sym('cache', ANYREF), mm.sym('neg', ANYREF), mm.sym('version', ANY)]))[1])
    got = []
    def take(mm, items):
        # an arbitrary item of what is added
        got.append(items); return NONE
    post = m.sym('postproc_list', Kind('postproc_list', pytype=list, cons='ref', methods={'extend': lambda mm, o, a, kw: take(mm, a[0]), 'append': lambda mm, o, a, kw: take(mm, [a[0]])}))
    st = {}
    m.assume(z3.Distinct(*[V.rid(x.t) for x in (obj, ns, reg, registry, post)]))
    before = m.dmap(ns).array()
    def item(mm, x, ref):
        its = mm.iterate(x)
        mm.cover('a virtual subclass')
        mm.prove('each registration calls register of this class on the virtual subclass', len(its) == 2 and And(mm.is_(its[0], reg)))
        a = mm.iterate(its[1]); mm.prove('each registration calls register of this class on the virtual subclass', len(a) == 1 and mm.is_(a[0], S(of(ref))))
    def hook(mm, x, fr):
        if not isinstance(x, (ast.ListComp, ast.GeneratorExp)) or len(x.generators) != 1: return None
        src = mm.eval(x.generators[0].iter, fr)
        if not (isinstance(src, S) and mm.is_(src, registry) is True): return None
        if mm.ctx.choose(2):
            def check(i, ok, elt):
                mm.prove('every virtual subclass', ok)
                item(mm, elt(), ref_at(i))
            arbitrary_item(mm, x, fr, Seq(n, get), check)
        return Seq_all
    Seq_all = m.sym('registrations', ANYREF)
    m.ghost['comp_hooks'] = [hook]
    # written as a loop: one call of append in each iteration
    def at(mm, i, it, evs, out):
        mm.prove('one registration for each virtual subclass', len(got) == 1 and isinstance(got[0], list) and len(got[0]) == 1 and out == 'next')
        if len(got) == 1: item(mm, got[0][0], term(it))
    m.loopspecs['_get_typedict_abc'] = [Iteration(at, lambda mm, seq: got.append('loop'))]
    out, r = m.run(D._get_typedict_abc, [obj, ns, attrs, post])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('the registry of this class', len(asked) == 1 and m.is_(asked[0], obj))
    m.prove('all the registrations are listed once', len(got) == 1)
    if len(got) == 1: m.prove('all the registrations are listed once', got[0] == 'loop' or got[0] is Seq_all)
    its = m.iterate(r)
    m.prove('the namespace and the attributes are handed back', len(its) == 2 and And(m.is_(its[0], ns), m.is_(its[1], attrs)))
    m.cover('filtered')
    now = m.dmap(ns).array(); k = m.sym('entry', K_STR)
    old = [term(k) == term(C(x)) for x in ('_abc_registry', '_abc_cache', '_abc_negative_cache')]
    had = z3.Not(OV.is_absent(z3.Select(before, term(C('_abc_registry')))))
    m.prove('only what the abstract base class machinery made is dropped',
            z3.Select(now, term(k)) == z3.If(z3.Or(z3.And(z3.Not(had), term(k) == term(C('_abc_impl'))), z3.And(had, z3.Or(*old))), OV.absent, z3.Select(before, term(k))))


def namedtuple_env(m):
    e = class_env(m, nt=True)
    K_FIELDS = Kind('fields', pytype=tuple, cons='ref', iter=lambda mm, v: e.seq)
    e.n = z3.Int('nfields'); e.at = z3.Function('field', I, z3.StringSort()); m.assume(e.n >= 0)
    e.seq = Seq(e.n, lambda i: SStr(e.at(i)))
    e.fields = m.sym('fields', K_FIELDS); e.defaults = m.sym('defaults', Kind('defaults', pytype=dict, cons='ref', dictkinds=(K_STR, ANY)))
    at = m.attrs[m.key(e.obj, m.attrs)]
    at['_fields'] = e.fields; at['_field_defaults'] = e.defaults
    e.d.update(_fields=e.fields, _field_defaults=e.defaults)
    m.assume(z3.Distinct(*[V.rid(x.t) for x in (e.obj, e.fields, e.defaults, e.ns, e.bases)]))
    return e


@unit('C06', 'namedtuple classes', ['registered for type'], covers=['no defaults', 'defaults', 'qualified name', 'a field'], max_paths=6000)
def namedtuples(m):
    """any namedtuple class: any fields, defaults, names and module"""
    e = namedtuple_env(m)
    got = {}
    def hook(mm, x, fr):
        """the list of defaults: an arbitrary field"""
        if not isinstance(x, (ast.ListComp, ast.GeneratorExp)) or len(x.generators) != 1: return None
        src = mm.eval(x.generators[0].iter, fr)
        if not (isinstance(src, S) and mm.is_(src, e.fields) is True): return None
        if mm.ctx.choose(2):
            def item(i, ok, elt):
                ent = z3.Select(mm.dmap(e.defaults).array(), V.strv(e.at(i)))
                mm.cover('a field')
                mm.prove('a field gives a default exactly if it has one', (ok if z3.is_expr(ok) else z3.BoolVal(bool(ok))) == z3.Not(OV.is_absent(ent)))
                if mm.branch(mkbool(ok)): mm.prove('its own default', mm.is_(elt(), S(OV.val(ent))))
            arbitrary_item(mm, x, fr, e.seq, item)
        l = mm.sym('default_list', K_LIST, old=False); got['list'] = l
        return l
    m.ghost['comp_hooks'] = [hook]
    writes = []; m.on_attr_write = lambda v, name, x: writes.append((v, name))
    b = m.dmap(e.defaults).array()
    out, r = m.run(save_fn(type), [e.p, e.obj])
    m.on_attr_write = None
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('the class is not changed', And(m.dmap(e.defaults).array() == b, not writes))
    evs = [x for x in events(m) if x.kind != 'write']
    m.prove('one value is written', len(evs) == 1 and evs[0].kind == 'reduce' and m.is_(evs[0].func, C(D._create_namedtuple)))
    if len(evs) != 1 or evs[0].kind != 'reduce': return
    a = m.iterate(evs[0].args)
    m.prove('name, fields, module and defaults', len(a) in (3, 4))
    m.prove('the name', m.is_(a[0], e.d['__name__']))
    m.prove('the fields', m.is_(a[1], e.fields))
    m.prove('the module', m.is_(a[2], e.d['__module__']))
    none = b == EMPTYD
    if len(a) == 3: m.cover('no defaults'); m.prove('defaults are left out only if there are none', none)
    else:
        m.cover('defaults')
        if 'list' not in got and m.is_(a[3], NONE) is not True: raise Unsupported('defaults that are not collected by a comprehension over the fields')
        m.prove('the defaults are those collected', 'list' in got and Or(m.is_(a[3], got['list'])) or m.is_(a[3], NONE) is True and none)
    same_name = m.eq(e.d['__name__'], e.d['__qualname__'])
    if e.own:
        m.cover('qualified name')
        m.prove('one deferred action at most', len(e.own) == 1)
        it = m.iterate(e.own[0]); x = m.iterate(it[1])
        m.prove('the qualified name is set', And(m.is_(it[0], C(setattr)), len(x) == 3 and And(m.is_(x[0], e.obj), m.eq(x[1], C('__qualname__')), m.is_(x[2], e.d['__qualname__']))))
    else: m.prove('the qualified name is set unless it is the name', same_name)


@unit('C06', 'creating a namedtuple class', ['dill._dill:_create_namedtuple'], covers=['the importable class', 'a new class', 'no such attribute'])
def create_nt(m):
    """any name, fields, module and defaults, whatever is importable under that name"""
    name = m.sym('name', K_STR); mod = m.sym('module', K_STR)
    fields = m.sym('fields', Kind('fields', pytype=tuple, cons='ref'))
    defaults = m.force(m.sym('defaults', OneOf(K_NONE, K_LIST)))
    K_FOUND = Kind('found', cons='ref', open=False)
    m.overrides = dict(m.overrides)
    st = {'imp': []}
    c = m.ctx.choose(4)
    other = m.sym('other_fields', ANYREF)
    found = NONE if c == 0 else m.sym('found', K_FOUND)
    if c: m.attrs[m.key(found, m.attrs, True)] = {} if c == 1 else {'_fields': fields if c == 2 else other}
    eqf = z3.Bool('same_fields')
    m.setkind(other.t, Kind('other', cons='ref', open=True, eq=lambda mm, s, o: eqf))
    m.assume(z3.Distinct(V.rid(other.t), V.rid(fields.t)))
    def imp(mm, a, kw):
        mm.prove('looked up without raising', mm.truth(a[1] if len(a) > 1 else kw.get('safe', FALSE)))
        st['imp'].append(a[0]); return found
    m.overrides[host_rid(D._import_module)] = imp
    m.overrides_tuple = None
    made = []; new = m.sym('new', ANYREF)
    m.env.model(collections.namedtuple, lambda mm, a, kw: (made.append((a, kw)), new)[1])
    args = [name, fields, mod] + ([defaults] if m.ctx.choose(2) or defaults is not NONE else [])
    out, r = m.run(D._create_namedtuple, args)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    same_ = {0: False, 1: False, 2: True, 3: eqf}[c]
    if not made:
        m.cover('the importable class')
        m.prove('an existing class is used only if it has these fields', And(same_, m.is_(r, found)))
    else:
        m.cover('a new class')
        if c == 1: m.cover('no such attribute')
        m.prove('a class is made only if there is none', And(Not(same_), len(made) == 1, m.is_(r, new)))
        a, kw = made[0]; d = dict(zip(['typename', 'field_names'], a)); d.update(kw)
        m.prove('with the name, the fields, the module and the defaults', {'typename', 'field_names', 'module'} <= set(d) and And(m.is_(d['typename'], name), m.is_(d['field_names'], fields), m.is_(d['module'], mod), m.is_(d.get('defaults', NONE), defaults)))
        m.prove('any valid or replaced field name is accepted', 'rename' in d and m.branch(d['rename']))
