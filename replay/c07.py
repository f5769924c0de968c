from oracle import *
import decimal, dill, pickle, types, typing, abc, functools, itertools, collections
from collections import OrderedDict

MODES = [dict(protocol=p, recurse=r) for p in (0, 2, 3, 4, 5) for r in (False, True)] + [dict(byref=True)]


def stock(x): return pickle.loads(pickle._dumps(x, 5))


def copies(x):
    for kw in MODES: yield dill.loads(dill.dumps(x, **kw))
    yield stock(x)
    yield dill.copy(x)


def shared(x):
    for kw in MODES:
        l = dill.loads(dill.dumps([x, {'k': x}, (x,)], **kw))
        check(l[0] is l[1]['k'] and l[0] is l[2][0] and type(l[0]) is type(x), 'two references load as one: %s' % type(x).__name__)


def G(self): 'getter doc'; return ('g', self)
def G0(self): return ('g0', self)
def S_(self, v): return ('s', v)
def D_(self): return 'd'


@case()
def properties():
    for fg, fs, fd, doc in itertools.product((None, G, G0), (None, S_), (None, D_), (None, 'explicit', '', 7)):
        p = property(fg, fs, fd, doc)
        for q in copies(p):
            eq(type(q), property, 'type'); 
            for n, a in (('fget', fg), ('fset', fs), ('fdel', fd)):
                g = getattr(q, n)
                check((g is None) == (a is None) and (a is None or g.__name__ == a.__name__), '%s of %r' % (n, (fg, fs, fd, doc)))
            eq(q.__doc__, p.__doc__, 'docstring %r' % ((fg, doc),))
    shared(property(G, None, D_, 'x'))
    for q in copies(abc.abstractproperty(G, S_, D_, 'adoc')):
        check(type(q) is abc.abstractproperty and q.__isabstractmethod__ and q.__doc__ == 'adoc' and q.fdel.__name__ == 'D_', 'abstract property')
    p = property(lambda s: 1, None, lambda s: 3)
    for kw in MODES:
        q = dill.loads(dill.dumps(p, **kw))
        check(q.fget(0) == 1 and q.fset is None and q.fdel(0) == 3, 'local functions')


@case()
def static_class_methods():
    for cls in (staticmethod, classmethod, abc.abstractstaticmethod, abc.abstractclassmethod):
        f = lambda *a: ('called', a)
        for kw in MODES:
            q = dill.loads(dill.dumps(cls(f), **kw))
            check(type(q) is cls and q.__func__(1, 2) == ('called', (1, 2)), cls.__name__)
            check(q.__func__ is not f, 'a copy')
        shared(cls(f))
    class K:
        @staticmethod
        def s(a): return ('s', a)
        @classmethod
        def c(cls, a): return (cls.__name__, a)
    for kw in MODES[:-1]:
        K2 = dill.loads(dill.dumps(K, **kw))
        check(K2.s(3) == ('s', 3) and K2().s(4) == ('s', 4) and K2.c(5) == ('K', 5) and type(K2.__dict__['s']) is staticmethod and type(K2.__dict__['c']) is classmethod, 'in a class')
        check(K2.c.__self__ is K2, 'bound to the new class')
        b = dill.loads(dill.dumps(K.c, **kw))
        check(b(1) == ('K', 1) and isinstance(b.__self__, type) and b.__self__ is not K, 'bound class method')


class Obj:
    def __init__(self, v): self.v = v
    def m(self, *a): return (self.v, a)
    def __len__(self): return 0          # false in a boolean context
    def __eq__(self, o): return type(o).__name__ == 'Obj' and o.v == self.v
    def __hash__(self): return 0


@case()
def bound_methods():
    o = Obj([1, 2])
    for x in copies(o.m):
        check(type(x) is types.MethodType and x(5) == ([1, 2], (5,)) and x.__self__ is not o, 'bound method')
    b = types.MethodType(lambda self, k: (self, k), 0)
    for kw in MODES:
        x = dill.loads(dill.dumps(b, **kw)); check(x(3) == (0, 3), 'bound to a false value')
        l = dill.loads(dill.dumps([o, o.m], **kw)); check(l[1].__self__ is l[0], 'self is the restored object')
    e = types.MethodType(len, [1, 2]); 
    for x in copies(e): check(x() == 2 and x.__self__ == [1, 2], 'builtin function bound')
    shared(o.m)


class Base:
    def who(self): return 'base'
class Derived(Base):
    def who(self): return 'derived'
    def sup(self): return super()


@case()
def supers():
    d = Derived()
    for s in (d.sup(), super(Derived, d), super(Base, d), super(Derived, Derived), super(Derived)):
        for kw in MODES:
            c = dill.loads(dill.dumps(s, **kw))
            check(type(c) is super and c.__thisclass__.__name__ == s.__thisclass__.__name__, 'class')
            if s.__self__ is None: check(c.__self__ is None, 'unbound')
            elif isinstance(s.__self__, type): check(c.__self__.__name__ == s.__self__.__name__, 'self class')
            else: check(type(c.__self__).__name__ == 'Derived', 'self')
            if s.__self__ is not None and s.__thisclass__ is Derived: check(getattr(c.who, '__func__', c.who).__qualname__ == 'Base.who', 'resolves past the class')
    shared(super(Derived, d))
    class L:
        def __init__(self): self.s = super()
    for kw in MODES[:-1]:
        c = dill.loads(dill.dumps(L(), **kw)); check(c.s.__self__ is c and c.s.__thisclass__ is type(c), 'cyclic super')


@case()
def slices_ranges_constants():
    vals = [None, 0, 1, -1, 2 ** 70, True, 'a', (1, 2), 1.5]
    for a, b, c in itertools.product(vals, vals, vals):
        s = slice(a, b, c)
        q = dill.loads(dill.dumps(s))
        tick((a, b, c))
        assert type(q) is slice and [(type(x), x) for x in (q.start, q.stop, q.step)] == [(type(x), x) for x in (a, b, c)], (s, q)
    shared(slice(1, [2], 3))
    for s in (slice(None), slice(1, None, -1), slice([1], {2: 3})):
        for q in copies(s): eq(q, s, 'slice')
    for a, b, c in itertools.product((-3, 0, 5, 2 ** 65, -2 ** 70), (-2, 0, 9, 2 ** 66), (-4, -1, 1, 3, 2 ** 64)):
        r = range(a, b, c)
        for q in ([dill.loads(dill.dumps(r)), stock(r)] if Counter.tier == 'quick' else copies(r)):
            tick(r); assert type(q) is range and (q.start, q.stop, q.step) == (a, b, c), (q, r)
    shared(range(3))
    for x in (Ellipsis, NotImplemented, None, True, False):
        for q in copies(x): check(q is x, repr(x))
        for q in copies([x, (x, x)]): check(q[0] is x and q[1][1] is x, repr(x))
    for x in (type(None), type(...), type(NotImplemented), range, slice): 
        for q in copies(x): check(q is x, repr(x))


@functools.lru_cache(maxsize=3, typed=True)
def cached(x): return (x, type(x))
@functools.lru_cache
def plain(x): return x


@case()
def lru_caches():
    for mx in (None, 0, 1, 2, 127, 128, 129, 10 ** 6, -5):
        for ty in (False, True):
            f = functools.lru_cache(maxsize=mx, typed=ty)(lambda x: [x])
            f(1); f(2)
            for kw in MODES:
                g = dill.loads(dill.dumps(f, **kw))
                check(type(g) is type(f), 'type')
                eq(g.cache_parameters(), f.cache_parameters(), 'parameters %r %r' % (mx, ty))
                eq(g.cache_info().maxsize, f.cache_info().maxsize, 'maxsize')
                check(g.cache_info().currsize == 0, 'fresh cache')
                check(g.__wrapped__(7) == [7] and g(7) == [7], 'wrapped function')
                if mx is None or mx > 1:
                    g.cache_clear(); a = g(1.0); b = g(decimal.Decimal(1)); check((a is b) == (not ty), 'typed behaviour %r %r' % (mx, ty))
            eq(f.cache_info().currsize, min(2, mx) if mx is not None and mx >= 0 else (2 if mx is None else 0), 'original cache untouched')
    shared(functools.lru_cache(maxsize=9)(lambda x: x))
    for x in (functools.lru_cache(lambda x: x), functools.lru_cache()(lambda x: x), functools.cache(lambda x: x)):
        for kw in MODES: eq(dill.loads(dill.dumps(x, **kw)).cache_parameters(), x.cache_parameters(), 'default parameters')


T_ = typing.TypeVar('T_'); Ts_ = typing.TypeVarTuple('Ts_'); P_ = typing.ParamSpec('P_')


@case()
def generic_aliases():
    class Loc(typing.Generic[T_]): pass
    als = [typing.List, typing.List[int], typing.Dict[str, int], typing.Tuple, typing.Tuple[()], typing.Tuple[int], typing.Tuple[int, ...],
           typing.Tuple[int, str], typing.Union[int, str], typing.Optional[int], typing.Callable[[int], str], typing.Callable[..., int],
           typing.Type[int], typing.Literal['a', 1], typing.ClassVar[int], typing.Final[str], typing.Annotated[int, 'note'],
           typing.Callable[[], int], typing.Dict[str, typing.List[typing.Tuple[int, ...]]], typing.Tuple[typing.Tuple[()], int],
           list[int], dict[str, int], tuple[()], tuple[int, ...], type[int], collections.deque[int], typing.Deque[int], typing.Set, typing.FrozenSet[int],
           typing.Generator[int, str, bytes], typing.Iterable[int], collections.abc.Callable[[int], str], typing.Iterable, typing.Pattern[str]]
    for a in als:
        for c in copies(a):
            check(type(c) is type(a) and c == a, repr(a))
            check(getattr(c, '__origin__', None) == getattr(a, '__origin__', None) and getattr(c, '__args__', None) == getattr(a, '__args__', None), 'parts of %r' % (a,))
    for a in (typing.List[int], typing.Tuple[()], typing.Callable[[int], str]):
        for kw in MODES:
            l = dill.loads(dill.dumps([a, a], **kw)); check(l[0] is l[1] and l[0] == a, 'shared')
    for kw in MODES[:-1]:
        c = dill.loads(dill.dumps(Loc[int], **kw)); check(c.__origin__.__name__ == 'Loc' and c.__args__ == (int,), 'local generic')
        c = dill.loads(dill.dumps(typing.Tuple[()], **kw)); check(c is typing.Tuple[()] or (c == typing.Tuple[()] and c.__args__ == ()), 'empty tuple alias')


@case('variadic generics')
def variadic():
    class V(typing.Generic[typing.Unpack[Ts_]]): pass
    class Q(typing.Generic[P_]): pass
    class TV(tuple, typing.Generic[typing.Unpack[Ts_]]): pass
    for kw in MODES[:-1]:
        for c in (V, Q, TV):
            for a in ((c[()],) if c is not Q else ()) + (c[int], c[int, str]):
                b, o = dill.loads(dill.dumps([a, c], **kw)); check(type(b) is type(a) and b.__origin__ is o and b.__args__ == a.__args__, repr(a))
                tick()


@case()
def proxies():
    for d in ({}, {'a': [1], 2: None}, {i: i for i in range(2000)}, OrderedDict([('z', 1), ('a', 2)]), collections.defaultdict(list, {'k': [3]}), collections.Counter('hello')):
        p = types.MappingProxyType(d)
        for c in copies(p):
            check(type(c) is types.MappingProxyType and c == p and list(c.items()) == list(d.items()), 'proxy contents')
        for kw in MODES:
            q, e = dill.loads(dill.dumps([p, d], **kw))
            check(q == p and e == d and e is not d, 'both')
            if type(d) is dict:
                e['new'] = 1
                check(q['new'] == 1 and 'new' not in d, 'the restored proxy is live over the restored mapping')
    shared(types.MappingProxyType({1: [2]}))
    class C(dict): pass
    m = C(x=1)
    for kw in MODES[:-1]:
        q, e = dill.loads(dill.dumps([types.MappingProxyType(m), m], **kw))
        check(q == {'x': 1} and e == {'x': 1} and type(e).__name__ == 'C', 'proxy of a dict subclass')


@case()
def dict_views():
    for cls in (dict, OrderedDict):
        for items in ([], [('a', 1), ('b', [2]), (3, None), ((), 'x')], [(i, -i) for i in range(300)]):
            d = cls(items)
            for what in ('keys', 'values', 'items'):
                v = getattr(d, what)()
                for c in copies(v):
                    check(type(c) is type(v) and list(c) == list(v), '%s of %s' % (what, cls.__name__))
                for kw in MODES:
                    w, e = dill.loads(dill.dumps([v, d], **kw))
                    check(type(e) is cls and e is not d, 'mapping')
                    if cls is not dict: continue
                    e['new'] = 'n'
                    check(len(w) == len(d) + 1 and list(w) == list(getattr(e, what)()), 'live view over the restored mapping')
                    v2, w2 = dill.loads(dill.dumps([v, getattr(d, 'keys')()], **kw))
                    check(v2.mapping == w2.mapping, 'views of one mapping')
                check('new' not in d, 'original untouched')
            shared(d.keys()); shared(d.values()); shared(d.items())
    d = {'a': 1}; 
    for kw in MODES:
        k, v, i, p = dill.loads(dill.dumps([d.keys(), d.values(), d.items(), types.MappingProxyType(d)], **kw))
        check(list(k) == ['a'] and list(v) == [1] and list(i) == [('a', 1)] and dict(p) == d, 'all views together')
