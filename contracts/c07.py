from contracts.common import *
import abc, functools, typing
from collections import OrderedDict

LRU = functools._lru_cache_wrapper
PROXY = types.MappingProxyType


def round_trip(m, fn, p, obj, what):
    """run the save function; its events must write exactly one value, memoised for obj; return what loading builds"""
    out, r = m.run(fn, [p, obj])
    m.prove('%s: pickling returns normally' % what, out == 'return')
    if out != 'return': return None
    ld = Loader(m); st = ld.stream(events(m))
    m.prove('%s: exactly one value is written' % what, st is not None and len(st) == 1)
    if not st: return None
    m.prove('%s: the object is memoised, so two references load as one object' % what,
            any(ev.obj is not None and m.is_(ev.obj, obj) is True for ev in reduces(m)) or any(ev.kind in ('memoize', 'global') and m.is_(ev.obj, obj) is True for ev in events(m)))
    return st[0]


def parts(m, new, obj, cls, names, what):
    m.prove('%s: same type' % what, m.pytype(new) is cls)
    if m.pytype(new) is not cls: return
    for n in names:
        m.prove('%s: %s is restored' % (what, n), same(m, m.getattr(new, n), m.getattr(obj, n)))


@unit('C07', 'property', ['registered for property', 'registered for abc.abstractproperty'], covers=['property'])
def prop(m):
    """getter, setter, deleter and docstring of a property (also an abstract one), including an explicit docstring"""
    cls = (property, abc.abstractproperty)[m.ctx.choose(2)]
    i, p = choose_pickler(m)
    obj = m.alloc(cls)
    d = m.attrs[obj.addr] = {n: m.sym(n, ANY) for n in ('fget', 'fset', 'fdel', '__doc__')}
    gdoc = ufun('getter_doc', V, V)(term(d['fget']))
    # property(): a docstring of None is replaced by the getter's; so a property without one has a getter without one
    m.assume(z3.Implies(V.is_none(d['__doc__'].t), V.is_none(gdoc)))
    new = round_trip(m, save_fn(cls), p, obj, 'property')
    if new is None: return
    m.cover('property')
    parts(m, new, obj, cls, ('fget', 'fset', 'fdel', '__doc__'), 'property')


@unit('C07', 'static and class methods', ['registered for staticmethod', 'registered for classmethod', 'registered for abc.abstractstaticmethod', 'registered for abc.abstractclassmethod'], covers=['method'])
def methods(m):
    """the wrapped function and the kind of wrapper"""
    cls = (staticmethod, classmethod, abc.abstractstaticmethod, abc.abstractclassmethod)[m.ctx.choose(4)]
    i, p = choose_pickler(m)
    obj = m.alloc(cls); m.attrs[obj.addr] = {'__func__': m.sym('func', ANY)}
    new = round_trip(m, save_fn(cls), p, obj, 'wrapper')
    if new is None: return
    m.cover('method')
    parts(m, new, obj, cls, ('__func__',), 'wrapper')


@unit('C07', 'bound method', ['registered for MethodType'], covers=['bound'])
def bound(m):
    """function and self"""
    i, p = choose_pickler(m)
    obj = m.alloc(types.MethodType); m.attrs[obj.addr] = {'__func__': m.sym('func', ANY), '__self__': m.sym('self', ANY)}
    new = round_trip(m, save_fn(types.MethodType), p, obj, 'bound method')
    if new is None: return
    m.cover('bound')
    parts(m, new, obj, types.MethodType, ('__func__', '__self__'), 'bound method')


@unit('C07', 'super', ['registered for super'], covers=['super'])
def super_(m):
    """class and self"""
    i, p = choose_pickler(m)
    obj = m.alloc(super); m.attrs[obj.addr] = {'__thisclass__': m.sym('cls', ANY), '__self__': m.sym('self', ANY), '__self_class__': m.sym('selfcls', ANY)}
    new = round_trip(m, save_fn(super), p, obj, 'super')
    if new is None: return
    m.cover('super')
    parts(m, new, obj, super, ('__thisclass__', '__self__'), 'super')


@unit('C07', 'slice', ['registered for slice'], covers=['slice'])
def slice_(m):
    """start, stop and step, whatever they are"""
    i, p = choose_pickler(m)
    obj = m.alloc(slice); m.attrs[obj.addr] = {n: m.sym(n, ANY) for n in ('start', 'stop', 'step')}
    new = round_trip(m, save_fn(slice), p, obj, 'slice')
    if new is None: return
    m.cover('slice')
    parts(m, new, obj, slice, ('start', 'stop', 'step'), 'slice')


@unit('C07', 'range, Ellipsis, NotImplemented', ['registered for range', 'registered for EllipsisType', 'registered for NotImplementedType', 'dill._dill:_eval_repr'], covers=['single'])
def singles(m):
    """the value whose repr was stored"""
    i, p = choose_pickler(m)
    t = (range, type(Ellipsis), type(NotImplemented))[m.ctx.choose(3)]
    def ev(mm, a, kw):                      # eval(repr(x)) == x for these three types, with only builtins in scope
        s = mm.force(a[0])
        if isinstance(s, SStr) and z3.eq(z3.simplify(s.t), z3.simplify(reprof(obj.t))): return obj
        if isinstance(s, C): return C(eval(s.v, {}))
        raise Unsupported('eval')
    m.env.model(eval, ev)
    if t is range:
        obj = m.sym('obj', Kind('range', pytype=range, cons='ref', methods={'__repr__': lambda mm, o, a, kw: mkstr(reprof(o.t))},
                                attrs={'start': K_INT, 'stop': K_INT, 'step': K_INT}))
    else: obj = C({type(Ellipsis): Ellipsis, type(NotImplemented): NotImplemented}[t])
    new = round_trip(m, save_fn(t), p, obj, t.__name__)
    if new is None: return
    m.cover('single')
    m.prove('%s: the equal value is restored' % t.__name__, same(m, new, obj))


def lru_models(m):
    def lru(mm, a, kw):
        d = dict(zip(['maxsize', 'typed'], a)); d.update(kw)
        mx, ty = mm.force(d.get('maxsize', C(128))), d.get('typed', FALSE)
        pm = mm.pytype(mx)
        if pm not in (int, bool, type(None)):
            k = ufun('callable', V, B)(term(mx))
            if len(a) >= 2: mm.raise_(TypeError, C('Expected first argument to be an integer, a callable, or None'))
            return wrapper(mm, mx, C(128), ty)
        if pm is int: mx = mkint(z3.simplify(z3.If(zint(mx) < 0, z3.IntVal(0), zint(mx))))
        return mm.alloc(types.FunctionType, lambda m2, aa, kk: wrapper(m2, aa[0], mx, ty))
    m.env.model(functools.lru_cache, lru)
    m.env.obj_attr_models = dict(m.env.obj_attr_models); m.env.obj_attr_models[LRU] = lambda mm, v, n: M(v, n, None) if n == 'cache_parameters' else None
    m.env.obj_method_models[(LRU, 'cache_parameters')] = lambda mm, o, a, kw: mm.new_dict([(C('maxsize'), mm.attrs[o.addr]['#maxsize']), (C('typed'), mm.attrs[o.addr]['#typed'])])


def wrapper(m, fn, mx, ty):
    o = m.alloc(LRU); m.attrs[o.addr] = {'__wrapped__': fn, '#maxsize': mx, '#typed': ty}
    return o


@unit('C07', 'lru_cache', ['registered for _lru_cache_wrapper', 'dill._shims:Reduce.__new__', 'dill._shims:Reduce.__reduce__'], covers=['lru'])
def lru(m):
    """wrapped function, cache size and typed flag, at any size (None included) and for either flag"""
    i, p = choose_pickler(m)
    lru_models(m)
    mx = m.force(m.sym('maxsize', OneOf(K_INT, K_NONE))); ty = m.sym('typed', K_BOOL)
    if mx is not NONE: m.assume(zint(mx) >= 0)      # lru_cache stores max(0, maxsize)
    fn = m.sym('fn', Kind('fn', pytype=types.FunctionType, cons='ref', open=True))
    obj = wrapper(m, fn, mx, ty)
    new = round_trip(m, save_fn(LRU), p, obj, 'lru_cache')
    if new is None: return
    m.cover('lru')
    m.prove('an lru_cache wrapper', m.pytype(new) is LRU)
    if m.pytype(new) is not LRU: return
    a = m.attrs[new.addr]
    m.prove('the wrapped function is restored', same(m, a['__wrapped__'], fn))
    m.prove('the cache size is restored', m.eq(a['#maxsize'], mx))
    m.prove('the typed flag is restored', m.eq(a['#typed'], ty))


def proxy_models(m):
    def mk(mm, a, kw):
        o = mm.alloc(PROXY); mm.attrs[o.addr] = {'#mapping': a[0]}; return o
    m.env.model(PROXY, mk)
    def union(mm, n, a, b):
        # mappingproxy.__or__ unwraps its operands; dict | <dict subclass overriding __ror__> calls the override first
        pa = mm.pytype(a)
        if n == 'BitOr' and pa is PROXY: return mm.binop(ast.BitOr(), mm.attrs[a.addr]['#mapping'], b)
        if n == 'BitOr' and pa is OrderedDict and isinstance(b, C) and isinstance(b.v, dict) and not issubclass(type(b.v), OrderedDict):
            o = mm.alloc(OrderedDict); mm.dicts[o.addr] = mm.dmap(a).copy()      # OrderedDict.__or__: a new mapping
            mm.env.dict_update(mm, o, mm.new_dict([(wrap(k), wrap(x)) for k, x in dict.items(b.v)])); return o
        if n == 'BitOr' and pa is dict and isinstance(b, C) and isinstance(b.v, dict) and type(b.v).__ror__ is not dict.__ror__:
            return mm.call(C(type(b.v).__ror__), [b, a], {})
        return None
    m.env.binop_hook = union
    m.env.obj_method_models[(PROXY, 'copy')] = lambda mm, o, a, kw: mm.call_method(mm.attrs[o.addr]['#mapping'], 'copy', [])


def mapping(m, cls):
    d = m.alloc(cls)
    m.dicts[d.addr] = DMap(m.ctx.fresh('mapping', DICT), [], ANY, ANY)
    return d


@unit('C07', 'mappingproxy', ['registered for mappingproxy', 'dill._dill:_dictproxy_helper.__ror__'], covers=['proxy'])
def dictproxy(m):
    """a read-only proxy is restored as a proxy of a copy of the very mapping it shows"""
    import ast
    i, p = choose_pickler(m)
    proxy_models(m)
    d = mapping(m, dict)
    obj = m.alloc(PROXY); m.attrs[obj.addr] = {'#mapping': d}
    new = round_trip(m, save_fn(PROXY), p, obj, 'mappingproxy')
    if new is None: return
    m.cover('proxy')
    m.prove('a mappingproxy', m.pytype(new) is PROXY)
    if m.pytype(new) is not PROXY: return
    nd = m.attrs[new.addr]['#mapping']
    m.prove('over a copy, not the original', Not(m.is_(nd, d)))
    m.prove('of the same kind and contents', m.pytype(nd) is dict and m.dmap(nd).array() == m.dmap(d).array())
    m.prove('the underlying mapping is what is pickled (a second reference to it stays the same object)',
            any(m.is_(x, d) is True for ev in reduces(m) for x in m.iterate(ev.args)))


@unit('C07', 'dict views', ['registered for dict_keys', 'registered for dict_values', 'registered for dict_items',
                            'registered for odict_keys', 'registered for odict_values', 'registered for odict_items'], covers=['view'])
def views(m):
    """a view is restored as a live view of the same kind over a copy of the mapping"""
    i, p = choose_pickler(m)
    proxy_models(m)
    cls = (dict, OrderedDict)[m.ctx.choose(2)]
    what = ('keys', 'values', 'items')[m.ctx.choose(3)]
    t = type(getattr(cls(), what)())
    d = mapping(m, cls)
    obj = m.alloc(t, ('view', what, d))
    px = m.alloc(PROXY); m.attrs[px.addr] = {'#mapping': d}
    m.attrs[obj.addr] = {'mapping': px}
    new = round_trip(m, save_fn(t), p, obj, 'view')
    if new is None: return
    m.cover('view')
    meta = m.objs[new.addr].meta if isinstance(new, O) else None
    m.prove('a view of the same kind', m.pytype(new) is t and isinstance(meta, tuple) and meta[0] == 'view' and meta[1] == what)
    if not isinstance(meta, tuple): return
    nd = meta[2]
    m.prove('a live view over a copy of the whole mapping', And(Not(m.is_(nd, d)), m.pytype(nd) is cls, m.dmap(nd).array() == m.dmap(d).array()))


@unit('C07', 'generic aliases', ['registered for typing._GenericAlias', 'dill._dill:_create_typing_tuple'], covers=['name', 'tuple', 'reduce'])
def alias(m):
    """an alias is stored as its own reduction (a name or a call), the empty tuple alias as itself"""
    i, p = choose_pickler(m)
    named = m.ctx.choose(2)
    origin = (C(tuple), m.sym('origin', Kind('origin', pytype=type, cons='ref')))[m.ctx.choose(2)]
    args = (C(()), C(((),)), m.sym('args', Kind('args', pytype=tuple, cons='ref', getitem=ANY)))[m.ctx.choose(3)]
    if isinstance(args, S): m.assume(tlen(V.rid(args.t)) >= 1); m.assume([Not(m.eq(m.tuple_get(args, 0), C(()))), Not(m.eq(C(()), m.tuple_get(args, 0)))])
    red = m.sym('name', K_STR) if named else T([m.sym('op', ANY), m.sym('opargs', Kind('opargs', pytype=tuple, cons='ref', getitem=ANY))])
    obj = m.alloc(typing._GenericAlias)
    m.attrs[obj.addr] = {'__args__': args, '__origin__': origin}
    m.env.model(typing._GenericAlias.__reduce__, lambda mm, a, kw: red)
    out, r = m.run(save_fn(typing._GenericAlias), [p, obj])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    evs = events(m)
    m.prove('exactly one value is written and memoised', len(evs) == 1 and m.is_(evs[0].obj, obj) is True)
    if len(evs) != 1: return
    e = evs[0]
    if named:
        m.cover('name')
        m.prove('an alias that reduces to a name is stored under that name', e.kind == 'global' and same(m, e.name, red))
    elif e.kind == 'reduce' and m.is_(e.func, red.items[0]) is True:
        m.cover('reduce')
        m.prove('otherwise it is stored as its own reduction', same(m, e.args, red.items[1]))
    else:
        m.cover('tuple')
        m.prove('only the tuple alias with no arguments is rebuilt specially', origin is not None and isinstance(origin, C) and isinstance(args, C))
        ok = e.kind == 'reduce' and isinstance(e.func, C) and is_concrete(e.args)
        m.prove('with a concrete reduction', ok)
        if ok:
            got = e.func.v(*concrete(e.args))
            want = typing.Tuple[()]         # (arguments ((),) are how older interpreters record the same alias)
            m.prove('and equals the original', type(got) is type(want) and got == want and got.__origin__ is tuple)
