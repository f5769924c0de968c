from oracle import *
import dill, sys, types, abc, collections, random, warnings, typing, io, functools, contextlib
import dill._dill as D
warnings.simplefilter('ignore')

MADE = {'__dict__', '__weakref__'}


def ns(cls):
    """the class's own namespace without what the interpreter makes"""
    d = dict(cls.__dict__)
    for k in ('__dict__', '__weakref__'):
        if isinstance(d.get(k), types.GetSetDescriptorType): del d[k]
    s = d.get('__slots__', ())
    for k in (s,) if isinstance(s, str) else tuple(s):
        if isinstance(d.get(k), types.MemberDescriptorType): del d[k]
    d.pop('_abc_impl', None)
    return d


def alike(a, b, what, memo):
    """structural equality of namespace values"""
    if (id(a), id(b)) in memo: return
    memo.add((id(a), id(b)))
    check(type(a) is type(b) or isinstance(a, type), '%s: type %r became %r' % (what, type(a), type(b)))
    if isinstance(a, types.FunctionType):
        check(a.__code__ == b.__code__ and a.__qualname__ == b.__qualname__ and a.__name__ == b.__name__, '%s: the function' % what)
        check(len(a.__defaults__ or ()) == len(b.__defaults__ or ()) and set(a.__dict__) == set(b.__dict__), '%s: the function' % what)
    elif isinstance(a, property):
        for k in ('fget', 'fset', 'fdel', '__doc__'): alike(getattr(a, k), getattr(b, k), what + '.' + k, memo)
    elif isinstance(a, (staticmethod, classmethod)): alike(a.__func__, b.__func__, what + '.__func__', memo)
    elif isinstance(a, type):
        if b is not a: same_class(a, b, what, memo)
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), '%s: length' % what)
        for i, (x, y) in enumerate(zip(a, b)): alike(x, y, '%s[%d]' % (what, i), memo)
    elif isinstance(a, dict):
        check(list(a) == list(b), '%s: keys %r became %r' % (what, list(a), list(b)))
        for k in a: alike(a[k], b[k], '%s[%r]' % (what, k), memo)
    elif type(a).__eq__ is not object.__eq__: check(a == b, '%s: %r became %r' % (what, a, b))


def same_class(cls, new, what='', memo=None):
    memo = set() if memo is None else memo
    check(isinstance(new, type), '%s: not a class: %r' % (what, new))
    alike(type(cls), type(new), what + '.metaclass', memo)
    check(new.__name__ == cls.__name__ and new.__qualname__ == cls.__qualname__, '%s: name %r %r' % (what, new.__name__, new.__qualname__))
    check(new.__module__ == cls.__module__, '%s: module' % what)
    check(len(new.__bases__) == len(cls.__bases__), '%s: bases %r became %r' % (what, cls.__bases__, new.__bases__))
    for i, (x, y) in enumerate(zip(cls.__bases__, new.__bases__)): alike(x, y, '%s.base%d' % (what, i), memo)
    check([c.__qualname__ for c in cls.__mro__] == [c.__qualname__ for c in new.__mro__], '%s: resolution order' % what)
    a, b = ns(cls), ns(new)
    check(set(a) == set(b), '%s: the namespace: missing %s, extra %s' % (what, sorted(set(a) - set(b)), sorted(set(b) - set(a))))
    for k in a: alike(a[k], b[k], '%s.%s' % (what, k), memo)
    check(('__dict__' in cls.__dict__, '__weakref__' in cls.__dict__) == ('__dict__' in new.__dict__, '__weakref__' in new.__dict__), '%s: instance dictionary or weak references' % what)
    check(cls.__basicsize__ == new.__basicsize__ and cls.__dictoffset__ == new.__dictoffset__ and cls.__weakrefoffset__ == new.__weakrefoffset__, '%s: instance layout' % what)
    check(getattr(cls, '__abstractmethods__', None) == getattr(new, '__abstractmethods__', None), '%s: abstract methods' % what)


def snap(cls): return dict(cls.__dict__), list(cls.__dict__), cls.__bases__, cls.__name__, cls.__qualname__, cls.__module__, type(cls)


SETTINGS = [dict(protocol=p, recurse=r) for p in (2, 3, 4, 5) for r in (False, True)] + [dict()]


def trip(cls, what='', settings=SETTINGS, **kw):
    for s in settings:
        cs = [c for c in cls.__mro__ if c.__module__ == '__main__'] + ([type(cls)] if type(cls).__module__ == '__main__' else [])
        before = [snap(c) for c in cs]
        data = dill.dumps(cls, **dict(s, **kw))
        after = [snap(c) for c in cs]
        check(all(x == y for x, y in zip(before, after)), '%s: pickling alters the class' % what)
        new = dill.loads(data)
        check(new is not cls, '%s: stored by value' % what)
        same_class(cls, new, '%s %s' % (what, s))
    return new


class Plain: pass
for c in (Plain,): c.__module__ = '__main__'


def make(name, bases, d, meta=type, qual=None, doc=None):
    d = dict(d); d['__module__'] = '__main__'
    if qual is not None: d['__qualname__'] = qual
    return types.new_class(name, bases, {'metaclass': meta}, lambda n: n.update(d))


def func(src, name, g=None):
    g = {'__name__': '__main__', '__builtins__': __builtins__} if g is None else g
    exec(src, g); f = g.pop(name); f.__module__ = '__main__'; return f


class Desc:
    def __init__(self, v): self.v = v
    def __get__(self, o, t=None): return self.v if o is not None else self
    def __set__(self, o, v): pass
    def __eq__(self, o): return type(o).__name__ == 'Desc' and self.v == o.v
    __hash__ = None


@case('namespaces', timeout=120)
def namespaces():
    """entries that are easy to lose: equal to the base's, None, special names, interpreter-like names"""
    f = func('def f(self): return 1', 'f')
    B = make('B', (), {'f': f, 'x': 1, '__slots__': (), '__doc__': 'd'})
    entries = [{}, {'__doc__': None}, {'__doc__': 'text'}, {'__hash__': object.__hash__, '__eq__': object.__eq__}, {'__eq__': f, '__hash__': None}, {'__eq__': f}, {'__hash__': None},
        {'x': None}, {'x': 1}, {'f': f}, {'__init__': object.__init__}, {'__new__': object.__new__}, {'__repr__': object.__repr__}, {'__str__': object.__str__, '__getattribute__': object.__getattribute__},
        {'__call__': f}, {'__len__': f, '__iter__': None}, {'__annotations__': {'a': int, 'b': 'str'}}, {'__match_args__': ('a', 'b')}, {'__all__': [1]}, {'__orig': 1}, {'_abc': 2}, {'__prepare__': 3},
        {'__getattr__': func('def g(self, n): raise AttributeError(n)', 'g')}, {'__setattr__': object.__setattr__, '__delattr__': object.__delattr__}, {'__reduce_ex__': object.__reduce_ex__}, {'__reduce__': object.__reduce__},
        {'__class_getitem__': classmethod(f)}, {'__init_subclass__': classmethod(func('def i(cls): pass', 'i'))}, {'__set_name__': f}, {'__qual': 1}, {'__static__': staticmethod(f)}, {'prop': property(f), 'p2': property(f, f, f, 'doc')},
        {'Nested': make('Nested', (), {'y': 3}, qual='C.Nested')}, {'d': {1: [2, {3}]}, 't': (1, (2,))}, {'f1': f, 'f2': f}, {'': 1}, {'a b': 2}, {'\xe9': 3}, {'__module__': '__main__'}, {'__firstlineno__': 3},
        {'__abstractmethods': 1}, {'_fields': ('a',), '_asdict': f}, {'_fields': ()}, {'e': Ellipsis, 'n': NotImplemented, 'tt': int, 'u': Plain}, {'__slots': 'q'}, {'__dictoffset': 1},
        {'dict': {}, '__weak__': 2}, {'__getstate__': f}, {'__setstate__': f}, {'__format__': object.__format__, '__sizeof__': object.__sizeof__, '__dir__': object.__dir__}]
    for b in ((), (B,), (Plain,), (int,), (Exception,), (dict,)):
        for e in entries:
            if b == (B,) and '__orig' in e: continue
            C = make('C', b, e)
            trip(C, '%s %s' % ([x.__name__ for x in b], sorted(e)), SETTINGS[::3] if Counter.tier == 'quick' else SETTINGS)


@case('inherited entries stay inherited')
def inherited():
    f = func('def f(self): return 1', 'f')
    for attr, v in [('__slots__', ()), ('_fields', ('a',)), ('__qualname', 1), ('__annotations__', {'a': int}), ('__parameters__', ()), ('_abc_x', 1), ('__doc__', 'q'), ('__hash__', None), ('_asdict', f), ('x', 1)]:
        A = make('A', (), {attr: v}); B = make('B', (A,), {}); K = make('K', (B, Plain), {'z': 1})
        new = trip(K, attr, SETTINGS[-1:])
        check(attr == '__doc__' or attr not in new.__dict__ or attr in K.__dict__, '%s became own' % attr)
        trip(B, attr, SETTINGS[-1:])


@case('generic subclasses')
def generics():
    """a class with an inherited __orig_bases__, and classes with their own"""
    T = typing.AnyStr
    G = types.new_class('G', (typing.Generic[T],), {}, lambda n: n.update({'__module__': '__main__', 'a': 1}))
    S = make('S', (G,), {'b': 2})
    I = types.new_class('I', (G[str],), {}, lambda n: n.update({'__module__': '__main__', 'c': 3}))
    L = types.new_class('L', (typing.List[int], Plain), {}, lambda n: n.update({'__module__': '__main__', 'd': None}))
    M = make('M', (I, Plain), {})
    Meta = make('Meta', (type,), {'mm': 1})
    X = types.new_class('X', (typing.Generic[T],), {'metaclass': Meta}, lambda n: n.update({'__module__': '__main__', 'a': 2}))
    Y = types.new_class('Y', (X[str],), {}, lambda n: n.update({'__module__': '__main__', 'b': 3}))
    Z = types.new_class('Z', (typing.List[int],), {'metaclass': abc.ABCMeta}, lambda n: n.update({'__module__': '__main__', 'd': 3}))
    for s in SETTINGS[::3]:
        for cls in (X, Y, Z): new = dill.loads(dill.dumps(cls, **s)); check(type(new).__name__ == type(cls).__name__, '%s: metaclass %r' % (cls.__name__, type(new)))
        for cls in (G, S, I, L, M, X, Y, Z):
            new = dill.loads(dill.dumps(cls, **s))
            check(new.__name__ == cls.__name__ and [c.__name__ for c in new.__bases__] == [c.__name__ for c in cls.__bases__] and [c.__name__ for c in new.__mro__] == [c.__name__ for c in cls.__mro__], '%s: bases' % cls)
            check(set(ns(new)) == set(ns(cls)), '%s: namespace %s' % (cls, set(ns(new)) ^ set(ns(cls))))
            check(len(getattr(new, '__parameters__', ())) == len(getattr(cls, '__parameters__', ())), '%s: parameters' % cls)
            check([str(b).replace('~', '') for b in new.__dict__.get('__orig_bases__', ())] == [str(b).replace('~', '') for b in cls.__dict__.get('__orig_bases__', ())], '%s: original bases' % cls)
            for k in 'abcd': check(getattr(new, k, 0) == getattr(cls, k, 0), '%s.%s' % (cls, k))


@case('slots')
def slots():
    f = func('def f(self): return 1', 'f')
    for s in ('a', 'ab', (), ('a',), ('a', 'b'), ['a', 'b'], [], ('__dict__',), ('__weakref__',), ('a', '__dict__', '__weakref__'), {'a': 'doc', 'b': None}, ('_x', 'y1')):
        for extra in ({}, {'q': 1, 'f': f}):
            for bases in ((), (make('S0', (), {'__slots__': ('z',)}),), (Plain,)):
                if bases == (Plain,) and ('__dict__' in s or '__weakref__' in s): continue
                C = make('C', bases, dict(extra, __slots__=s))
                new = trip(C, 'slots %r' % (s,), SETTINGS[::4])
                check(new.__dict__['__slots__'] == s and type(new.__slots__) is type(s), 'slots %r became %r' % (s, new.__slots__))
                for k in ((s,) if isinstance(s, str) else s):
                    if not k.startswith('__'):
                        o = new(); setattr(o, k, 5); check(getattr(o, k) == 5, 'slot %s' % k)
                        p = C(); setattr(p, k, [7]); p2 = dill.copy(p); check(getattr(p2, k) == [7] and p2.__class__.__slots__ == s, 'an instance')
    # no slots: entries named like parts of nothing
    C = make('C', (make('S0', (), {'__slots__': ('z',)}),), {'z': 3})
    new = trip(C, 'a slot shadowed by a plain entry'); check(new.z == 3, 'z')
    C = make('C', (make('S0', (), {'__slots__': 'z'}),), {'z': 3, 'zz': 4})
    new = trip(C, 'a slot shadowed by a plain entry'); check(new.z == 3 and new.zz == 4, 'z')


@case('metaclasses')
def metaclasses():
    f = func('def f(cls): return 9', 'f')
    M = make('M', (type,), {'f': f, 'q': 1})
    N = make('N', (abc.ABCMeta,), {'r': 2})
    P = make('P', (type,), {'__call__': func('def c(cls, *a): return a', 'c')})
    for meta in (M, N, abc.ABCMeta, P):
        A = make('A', (), {'x': 1}, meta=meta)
        B = make('B', (A,), {'y': 2}); Cc = make('C', (Plain, B), {'z': None})
        for cls in (A, B, Cc):
            new = trip(cls, '%s %s' % (meta.__name__, cls.__name__), SETTINGS[::3])
            if meta is M: check(new.f() == 9 and new.q == 1, 'metaclass members')
            if meta is P: check(new(1, 2) == (1, 2), 'metaclass call')
    for q in ('C', 'Outer.C', 'f.<locals>.C', 'x y', ''):
        check(trip(make('C', (), {}, qual=q), 'qualname %r' % q, SETTINGS[::4]).__qualname__ == q, 'qualified name %r' % q)
        trip(make('C', (), {}, qual=q, meta=M), 'qualname %r' % q, SETTINGS[::4])
        trip(make('C', (), {}, qual=q, meta=abc.ABCMeta), 'qualname %r' % q, SETTINGS[::4])
    X = make('X', (), {}); X.__name__ = 'Renamed'; trip(X, 'renamed')
    X = make('X', (), {}); X.late = 1; X.g = f; trip(X, 'later entries')


@case('virtual subclasses')
def registry():
    am = abc.abstractmethod(func('def am(self): return 1', 'am'))
    for n in (0, 1, 2, 5):
        A = make('A', (), {'am': am, 'k': 3}, meta=abc.ABCMeta)
        subs = [make('V%d' % i, (), {'i': i}) for i in range(n)] + [int, str][:n]
        for s in subs: A.register(s)
        Sub = make('Sub', (A,), {'am': func('def am(self): return 2', 'am')})
        for cls in (A, Sub):
            for st in SETTINGS[::3]:
                new, nsubs, N = dill.loads(dill.dumps((cls, subs, A), **st))
                same_class(cls, new, 'abstract')
                for s in nsubs: check(issubclass(s, N) and (N is new or not issubclass(s, new)), 'virtual subclass %s' % s)
                check(sorted(r().__name__ for r in abc._get_dump(N)[0]) == sorted(s.__name__ for s in subs), 'the registry')
                check(not issubclass(float, N) and not issubclass(list, N), 'others are not subclasses')
                if cls is A and n: check(issubclass(int, dill.loads(dill.dumps(A, **st))), 'int stays registered')
        check(sorted(r().__name__ for r in abc._get_dump(A)[0]) == sorted(s.__name__ for s in subs), 'the original registry is unchanged')
        try: dill.copy(A)(); check(False, 'abstract classes cannot be instantiated')
        except TypeError: pass
        check(dill.copy(Sub)().am() == 2, 'concrete')
    # class registered with itself nested, a registered class referring back
    A = make('A', (), {}, meta=abc.ABCMeta); V = make('V', (), {'owner': A}); A.register(V)
    N, W = dill.copy((A, V)); check(W.owner is N and issubclass(W, N), 'cycle through the registry')
    # any registrations with any of a hierarchy of abstract classes, redundant ones included
    rng = random.Random(Counter.seed)
    reg = lambda c: sorted(r().__name__ for r in abc._get_dump(c)[0])
    for _ in range(40 if Counter.tier == 'quick' else 400):
        As = []; Vs = [make('V0', (), {}), int, dict]
        for i in range(rng.randrange(1, 5)):
            As.append(make('A%d' % i, tuple(rng.sample(As, 1)) if As and rng.random() < .6 else (abc.ABC,) if rng.random() < .5 else (), {}, meta=abc.ABCMeta))
        for i in range(1, 4): Vs.append(make('V%d' % i, (rng.choice([v for v in Vs if v is not dict]),), {}))
        for _ in range(rng.randrange(8)):
            a, v = rng.choice(As), rng.choice(Vs + As)
            if not issubclass(a, v) or a is v: a.register(v)
        want = [reg(a) for a in As]; sub = [[issubclass(v, a) for v in Vs + As] for a in As]
        nA, nV = dill.loads(dill.dumps((As, Vs), **rng.choice(SETTINGS)))
        eq([[issubclass(v, a) for v in nV + nA] for a in nA], sub, 'virtual subclasses')
        eq([reg(a) for a in As], want, 'the originals')


@case('a class in its own namespace')
def own_namespace():
    """a class whose namespace holds the class itself, or a subclass of it"""
    A = make('A', (), {}); A.me = A; A.l = [A, {1: A}]
    N = dill.copy(A); check(N.me is N and N.l[0] is N and N.l[1][1] is N, 'a class that refers to itself')
    B = make('B', (A,), {}); A.sub = B
    for s in SETTINGS:
        N = dill.loads(dill.dumps(A, **s)); check(N.sub.__bases__ == (N,) and N.sub.__mro__[1] is N and N.me is N, 'a class that refers to its subclass')


@case('cyclic classes')
def cyclic():
    """classes that methods refer to through cells, instances that refer to their class, shared classes"""
    A = make('A', (), {}); B = make('B', (A,), {})
    for s in SETTINGS:
        a, b, c = dill.loads(dill.dumps([A, B, A], **s)); check(a is c and b.__bases__ == (a,), 'shared')
    def outer():
        class K:
            def m(self): return __class__
            def s(self): return super().__repr__()
        return K
    K = outer(); K.__module__ = '__main__'; K.m.__module__ = '__main__'
    N = dill.copy(K); check(N().m() is N and isinstance(N().s(), str), 'the __class__ cell')
    x = K(); x.k = K; y = dill.copy(x); check(type(y) is y.k and y.m() is y.k, 'an instance that refers to its class')


@case('random hierarchies', timeout=150)
def hierarchies():
    n = 150 if Counter.tier == 'quick' else 1200
    vals = [None, 0, 1, '', 'a', (), (1,), [], {}, {1: 2}, 1.5, True, False, b'x', int, Plain, Ellipsis, frozenset({1})]
    names = ['x', 'y', 'z', '_p', '__q', '__doc__', 'f', '__hash__', '__eq__', '__repr__', 'X', 'name', '__call__']
    fs = [func('def f(self, a=1): return %d' % i, 'f') for i in range(4)]
    for i in range(n):
        rnd = random.Random(Counter.seed * 7919 + i)
        pool = []
        meta = rnd.choice([type, type, abc.ABCMeta, make('Meta', (type,), {'mm': i})])
        for j in range(rnd.randint(1, 4)):
            d = {}
            for _ in range(rnd.randint(0, 5)):
                k = rnd.choice(names)
                if k in ('__eq__', '__repr__', '__call__'): d[k] = rnd.choice(fs)
                elif k == '__hash__': d[k] = rnd.choice([None, object.__hash__, fs[0]])
                elif k == '__doc__': d[k] = rnd.choice([None, 'doc', ''])
                else: d[k] = rnd.choice(vals + fs + [property(fs[0]), staticmethod(fs[1]), classmethod(fs[2])])
            sl = rnd.choice([None, None, None, 's', ('s%d' % j,), ('t%d' % j, 'u%d' % j), ()])
            if sl is not None: d['__slots__'] = sl
            for _ in range(5):
                bases = tuple(rnd.sample(pool, min(len(pool), rnd.choice([0, 1, 1, 2]))))
                if not pool and rnd.random() < .3: bases = (rnd.choice([dict, list, Exception, Plain, set]),)
                if not bases and sl == 's' and pool: continue
                try: pool.append(make('C%d' % j, bases, d, meta=meta, qual=rnd.choice([None, 'Q.C%d' % j]))); break
                except TypeError: continue
        for cls in pool: trip(cls, 'hierarchy %d %s' % (i, cls.__name__), [rnd.choice(SETTINGS)])


def same_nt(cls, new, what, module=None):
    check(new.__name__ == cls.__name__ and new.__qualname__ == cls.__qualname__, '%s: name %r %r' % (what, new.__name__, new.__qualname__))
    check(new.__module__ == cls.__module__, '%s: module %r' % (what, new.__module__))
    check(new._fields == cls._fields, '%s: fields %r' % (what, new._fields))
    check(new._field_defaults == cls._field_defaults, '%s: defaults %r became %r' % (what, cls._field_defaults, new._field_defaults))
    check(new.__bases__ == (tuple,), '%s: bases' % what)
    n = len(cls._fields); vals = tuple(range(n))
    check(new(*vals) == vals and [getattr(new(*vals), k) for k in cls._fields] == list(vals), '%s: instances' % what)
    nd = n - len(cls._field_defaults)
    check(tuple(new(*vals[:nd])) == tuple(cls(*vals[:nd])), '%s: instances with defaults' % what)
    if nd: raises(TypeError, new, *vals[:nd - 1])


@case('namedtuple', timeout=100)
def namedtuples():
    k = 0
    for fields in ([], ['a'], ['a', 'b'], ['a', 'b', 'c'], ['x%d' % i for i in range(6)]):
        for nd in range(len(fields) + 1):
            for dv in ((None,), (0, False), ([], 'x'), (1, 2, 3)):
                defaults = [dv[i % len(dv)] for i in range(nd)]
                for modname in ('__main__', 'nowhere', 'no.where'):
                    for qual in (None, 'Outer.Q', 'f.<locals>.Q'):
                        for rename in (False, True):
                            k += 1
                            if Counter.tier == 'quick' and k % 2: continue
                            t = collections.namedtuple('Q', fields + (['a', 'def'] if rename else []), defaults=defaults, module=modname, rename=rename)
                            if qual: t.__qualname__ = qual
                            for s in SETTINGS[::4]:
                                new = dill.loads(dill.dumps(t, **s)); same_nt(t, new, 'namedtuple')
                                inst = t(*range(len(t._fields))); c = dill.loads(dill.dumps([inst, t], **s))
                                check(type(c[0]) is c[1] and c[0] == inst, 'an instance and its class')
    # an importable class of the same module and name with other fields
    m = types.ModuleType('vnt_mod'); sys.modules['vnt_mod'] = m
    m.Q = collections.namedtuple('Q', 'a b', module='vnt_mod')
    check(dill.copy(m.Q) is m.Q, 'stored by name')
    t = collections.namedtuple('Q', 'x y z', module='vnt_mod'); new = dill.copy(t)
    check(new is not m.Q, 'not the other class'); same_nt(t, new, 'other fields')
    m.Q = object(); same_nt(t, dill.copy(t), 'the name is something else')
    del m.Q; same_nt(t, dill.copy(t), 'no such name')
    m.Q = types.ModuleType('vnt_mod.Q'); sys.modules['vnt_mod.Q'] = m.Q; same_nt(t, dill.copy(t), 'the name is a module')


@case('look-alikes of namedtuples')
def lookalikes():
    """subclasses of tuple, and of namedtuples, are ordinary classes"""
    nt = collections.namedtuple('NT', 'a b', module='__main__')
    f = func('def f(self): return 5', 'f')
    Sub = make('Sub', (nt,), {'__slots__': (), 'f': f})
    new = dill.copy(Sub); check(new(1, 2).f() == 5 and new.__bases__[0]._fields == ('a', 'b') and new.__name__ == 'Sub', 'a subclass of a namedtuple')
    trip(make('T', (tuple,), {'f': f}), 'a subclass of tuple')
    trip(make('T', (tuple,), {'_fields': ('a',)}), 'a subclass of tuple with _fields')
    trip(make('T', (tuple, Plain), {'_fields': ('a',), '_make': f, '_replace': f, '_asdict': f}), 'more bases')
    trip(make('T', (list,), {'_fields': ('a',), '_make': f, '_replace': f, '_asdict': f}), 'other base')


@case('built-in classes')
def builtin():
    for t in (type(None), type(NotImplemented), type(...), int, type, object, types.FunctionType, types.CodeType, types.ModuleType, type({}.keys()), types.CellType, abc.ABCMeta, types.MappingProxyType, type(lambda: 0), type(sys), collections.OrderedDict, __import__('enum').EnumMeta, __import__('threading').ExceptHookArgs, types.GenericAlias, types.MethodType, types.BuiltinFunctionType):
        for s in SETTINGS: check(dill.loads(dill.dumps(t, **s)) is t, 'built-in class %s' % t)


@case('settings by name', timeout=40)
def byref():
    """byref: a class is stored by name"""
    import __main__
    K = make('K', (), {'a': 1}); __main__.K = K
    check(dill.loads(dill.dumps(K, byref=True)) is K, 'by name')
    check(dill.loads(dill.dumps(K)) is not K, 'by value')
    o = K(); check(type(dill.loads(dill.dumps(o, byref=True))) is K, 'an instance')


@case('enum-like and dataclass')
def library():
    import dataclasses
    D0 = make('D0', (), {'__annotations__': {'a': int, 'b': list}, 'a': 3})
    D0.b = dataclasses.field(default_factory=list); D0 = dataclasses.dataclass(D0)
    new = dill.copy(D0); check(new().a == 3 and new().b == [] and new() == new(), 'dataclass'); check([f.name for f in dataclasses.fields(new)] == ['a', 'b'], 'fields')
    Pr = make('Pr', (), {'c': functools.cached_property(func('def c(self): return [1]', 'c'))}) if sys.version_info >= (3, 12) else Plain
    P = types.new_class('P', (typing.Protocol,), {}, lambda n: n.update({'__module__': '__main__', 'm': func('def m(self): pass', 'm')}))
    new = dill.copy(P); check(new._is_protocol and new.__mro__[1].__name__ == 'Protocol', 'protocol')
