from oracle import *
import types, dataclasses, datetime, collections, decimal, io, functools, random, pickle
import dill
import numpy as np

DESC = (types.MemberDescriptorType, types.GetSetDescriptorType, types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)


def rt(x, **k): return dill.loads(dill.dumps(x, **k))


@case('descriptors of built-in types')
def _():
    for c in [int, str, bytes, list, dict, set, frozenset, tuple, float, complex, object, type, slice, range, property, staticmethod, super, memoryview, bytearray, BaseException, OSError, SyntaxError,
              types.FunctionType, types.CodeType, types.MethodType, types.ModuleType, types.FrameType, types.GeneratorType, types.TracebackType, types.GetSetDescriptorType, types.MemberDescriptorType,
              types.MappingProxyType, types.CellType, datetime.datetime, datetime.date, collections.deque, collections.OrderedDict, collections.defaultdict, decimal.Decimal, io.StringIO, io.BytesIO, io.FileIO,
              io.TextIOWrapper, functools.partial, np.ndarray, np.dtype, np.float64, np.ufunc, np.generic]:
        for n, d in list(vars(c).items()):
            if not isinstance(d, DESC): continue
            for proto in (0, 2, 5) if c in (type, dict, np.ndarray) else (None,):
                r = rt(d, protocol=proto); check(r is d or type(r) is type(d) is types.ClassMethodDescriptorType and r == d, '%s.%s' % (c.__name__, n)); tick()
            a, b = rt([d, d]); check(a is b, 'two references to %s.%s' % (c.__name__, n))


@case('descriptors of slots')
def _():
    names = ['slice', 'range', 'property', 'type', 'int', 'dict', 'Pickler', 'Unpickler', 'Sentinel', 'PickleWarning', 'partial', 'dataclasses', 'match', 'os', 'a b', "it's", 'λ', 'X', '_', 'lambda', 'numpy', 'dispatch', 'StockPickler']
    slots = ['start', 'stop', 'dispatch', 'name', 'fget', 'numerator', 'func', 'load', 'save', 'q', '__dict__', '__weakref__', 'fields', 'λ', '_x']
    for n in names:
        for bases in ((), (int,), (Exception,)):
            have = [s for s in slots if bases == () or s not in ('__dict__', '__weakref__') and not hasattr(bases[0], s)]
            if bases: have = []
            try: c = type(n, bases, {'__slots__': have, '__module__': '__main__', '__qualname__': 'local.<locals>.' + n} if not bases else {'__module__': '__main__', '__qualname__': 'local.<locals>.' + n})
            except TypeError: continue
            for s, d in list(vars(c).items()):
                if not isinstance(d, DESC): continue
                ds, cs = rt([d, c]); check(ds is vars(cs)[s], '%s.%s: %r' % (n, s, ds)); tick()
                cs, ds, again = rt([c, d, d]); check(ds is vars(cs)[s] and again is ds, '%s.%s after the class' % (n, s))
    class Base: __slots__ = ('a',)
    class Derived(Base): __slots__ = ('b', 'a')
    b, d, cb, cd = rt([Base.a, Derived.a, Base, Derived]); check(b is vars(cb)['a'] and d is vars(cd)['a'] and b is not d, 'a slot that a base class has too')
    f = rt(lambda: Derived.b); check(f() is not None, 'within a function')


@case('markers of dataclasses')
def _():
    for n in ('MISSING', 'KW_ONLY', '_HAS_DEFAULT_FACTORY', '_FIELD', '_FIELD_CLASSVAR', '_FIELD_INITVAR'):
        v = getattr(dataclasses, n, None)
        if v is None: continue
        for proto in range(6): check(rt(v, protocol=proto) is v, '%s, protocol %d' % (n, proto)); a, b, c = rt([v, v, 5], protocol=proto); check(a is v and b is v and c == 5, n); tick()
    import typing
    @dataclasses.dataclass
    class C:
        x: int
        y: list = dataclasses.field(default_factory=list)
        k: dataclasses.KW_ONLY = None
        z: dataclasses.InitVar[int] = 3
        w: typing.ClassVar[int] = 4
    for recurse in (False, True):
        K = rt(C, recurse=recurse); o = K(1); eq((o.x, o.y, o.k, K.w), (1, [], None, 4)); eq([f.name for f in dataclasses.fields(K)], [f.name for f in dataclasses.fields(C)])
        for f, g in zip(dataclasses.fields(K), dataclasses.fields(C)): check(f._field_type is g._field_type and (f.default is dataclasses.MISSING) == (g.default is dataclasses.MISSING), f.name)
        check({n: f._field_type for n, f in K.__dataclass_fields__.items()} == {n: f._field_type for n, f in C.__dataclass_fields__.items()}, 'kinds of fields')


@case('ufuncs')
def _():
    n = 0
    for m in (np, np.linalg, np._core.umath):
        for k, v in list(vars(m).items()):
            if isinstance(v, np.ufunc): check(rt(v) is v, k); a, b = rt([v, v]); check(a is v and b is v, k); n += 1; tick()
    check(n > 80, 'ufuncs')


class Sub(np.ndarray): pass
class Info(np.ndarray):
    def __array_finalize__(self, o): self.info = getattr(o, 'info', None)
class OwnReduce(np.ndarray):
    def __reduce__(self):
        f, a, s = super().__reduce__(); return f, a, s + (dict(vars(self)),)
    def __setstate__(self, s): self.__dict__.update(s[-1]); self.__dict__['seen'] = True; super().__setstate__(s[:-1])
class OwnReduceEx(np.ndarray):
    def __reduce_ex__(self, proto): return make, (type(self), np.asarray(self), dict(vars(self)))
def make(t, a, d): r = a.view(t); r.__dict__.update(d); return r
class Noted(np.ndarray):
    def __setstate__(self, s): self.calls = getattr(self, 'calls', 0) + 1; super().__setstate__(s)


def same(a, b, what):
    a = np.asarray(a).astype(a.dtype.newbyteorder('=')).view(type(a)) if isinstance(b, np.ndarray) and a.dtype != b.dtype and a.dtype.kind in 'iufcMU' else a      # numpy's __setstate__ gives native order
    check(type(a) is type(b), '%s: %r' % (what, type(b))); check(a.dtype == b.dtype and a.shape == b.shape, '%s: %r %r' % (what, b.dtype, b.shape))
    x, y = np.asarray(a), np.asarray(b); check(x.tobytes() == y.tobytes() if a.dtype != object and not a.dtype.hasobject else x.tolist() == y.tolist(), what)


def some_array(rng):
    dt = rng.choice(['f8', '<i4', '>i4', 'S5', 'U3', 'M8[ns]', 'O', [('a', 'f8'), ('b', 'i4', (2,))], '?', 'c16', 'V7'])
    shape = rng.choice([(), (0,), (3,), (2, 3), (0, 2), (2, 1, 2)])
    a = np.zeros(shape, dtype=dt)
    if dt == 'O':
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape): a[i] = rng.choice([1, 'x', None, (1, 2)])
    elif dt not in ('V7',) and not isinstance(dt, list): a = np.asarray(np.arange(a.size).reshape(shape) % 2).astype(dt)
    if a.ndim > 1 and rng.randrange(2): a = np.asfortranarray(a)
    if a.ndim and rng.randrange(3) == 0: a = a[::-1]
    return a


@case('arrays of a subclass')
def _():
    rng = random.Random(Counter.seed)
    class Local(np.ndarray): pass
    for i in range(5 * 400 if Counter.tier == "thorough" else 400):
        cls = rng.choice([Sub, Info, Local, Noted, np.matrix if i % 7 == 0 else Sub, np.recarray if i % 5 == 0 else Sub]); a = some_array(rng)
        if cls in (np.matrix, np.recarray): a = np.arange(6).reshape(2, 3)
        a = a.view(cls); attrs = {}
        for n in rng.sample(['x', '_y', '__z__', 'info', 'name', 'a b'], rng.randrange(5)):
            attrs[n] = v = rng.choice([1, [1], {'k': 2}, None, 'text']); a.__dict__[n] = v
        k = rng.choice([{}, {'protocol': rng.randrange(2, 6)}, {'recurse': True}, {'byref': True}])
        if cls is Local and 'byref' in k: k = {}
        if cls is Local: b, t = rt([a, Local], **k); check(type(b) is t, 'its class'); b2 = np.asarray(b); same(np.asarray(a), b2, 'local')
        else: b = rt(a, **k); same(a, b, cls.__name__)
        have, want = dict(vars(b)), dict(vars(a))
        if cls is Noted: eq(have.pop('calls'), 1); want.pop('calls', None)
        eq(have, want, 'attributes'); check(b is not a and (a.size == 0 or not np.shares_memory(a, b)), 'a copy'); tick()
        x, y = rt([a, a], **k); check(x is y, 'two references')


@case('families of classes of arrays')
def _():
    def same_name(own):
        class A(np.ndarray):
            if own: __reduce__ = lambda self: np.ndarray.__reduce__(self)
        return A
    for order in [(0, 1), (1, 0), (1, 1, 0), (0, 0)]:
        for own in order:
            t = same_name(own); a = np.arange(3).view(t); a.x = 1; b = rt(a); same(a.view(np.ndarray), np.asarray(b), 'items')
            if not own: eq(vars(b), {'x': 1})
            tick()
    bases = [(np.ndarray,)]
    for depth in range(6):
        for mixin in ((), (type('Mixin', (), {}),)):
            t = type('T', mixin + bases[0], {}); a = np.arange(4).reshape(2, 2).view(t); a.x = a.y = [depth]; a._z = None; b, k = rt([a, t]); check(type(b) is k, 'class'); eq(vars(b), vars(a)); check(b.x is b.y and b.tolist() == a.tolist(), 'depth %d' % depth); tick()
        bases = [(type('T', bases[0], {}),)]
    for c in (Sub, Info):         # in any order, of classes that are found
        t = type('Derived', (c,), {}); a = np.arange(2).view(t); a.q = 1; check(rt(a).q == 1, 'derived first'); a = np.arange(2).view(c); a.q = 2; check(rt(a).q == 2, 'base')
        t = type('Derived2', (c,), {}); a = np.arange(2).view(t); a.q = 3; check(rt(a).q == 3, 'derived after')


@case('arrays that refer to themselves')
def _():
    for cls in (Sub, Info):
        for proto in (2, 3, 4, 5):
            a = np.arange(3.).view(cls); a.me = a; a.l = [a, {'a': a}]; b = rt(a, protocol=proto); check(b.me is b and b.l[0] is b and b.l[1]['a'] is b, 'attributes'); same(a, b, 'itself')
            a = np.empty(2, dtype=object).view(cls); a[0], a[1] = a, 5; b = rt(a, protocol=proto); check(b[0] is b and b[1] == 5, 'items')
            o = [np.arange(2).view(cls)]; o[0].owner = o; p = rt(o, protocol=proto); check(p[0].owner is p and p[0].tolist() == [0, 1], 'an owner'); q = rt(o[0], protocol=proto); check(q.owner[0] is q, 'from the array')
            f = lambda: a2; a2 = np.arange(2).view(cls); a2.f = f; c = rt(a2, protocol=proto); check(c.f() is c, 'a function that uses it'); tick()


@case('arrays with a reduction of their own')
def _():
    for proto in (None, 2, 5):
        a = np.arange(4).view(OwnReduce); a.x = [1]; b = rt(a, protocol=proto); same(a, b, 'own'); eq(vars(b), {'x': [1], 'seen': True})
        a = np.arange(4).view(OwnReduceEx); a.x = [1]; b = rt(a, protocol=proto); same(a, b, 'own'); eq(vars(b), {'x': [1]}); tick()
    a = np.ma.array([1, 2, 3], mask=[0, 1, 0], fill_value=7); a.note = 'n'; b = rt(a); check(b.mask.tolist() == [False, True, False] and b.fill_value == 7 and b.data.tolist() == [1, 2, 3] and type(b) is type(a), 'masked')
    check(rt(np.ma.masked) is np.ma.masked, 'masked'); eq(rt(np.float64(5)), np.float64(5)); check(rt(np.dtype('f8')) == np.dtype('f8') and rt(np.ndarray) is np.ndarray and rt(type(np.dtype('f8'))) is type(np.dtype('f8')), 'types')
    a = np.arange(6).reshape(2, 3); b = rt(a); same(a, b, 'plain'); check(rt(a.sum)() == 15, 'a method of an array')


@case('arrays in other processes')
def _():
    code = '''
import numpy as np, dill, sys
class T(np.ndarray): pass
a = np.arange(3).view(T); a.x = [a]
open('arr.pkl', 'wb').write(dill.dumps(a))
'''
    child(code); child('import dill; a = dill.load(open("arr.pkl", "rb")); assert a.tolist() == [0, 1, 2] and a.x[0] is a and type(a).__name__ == "T"'); tick()
    from dill import _dill
    if hasattr(_dill, '_create_array'):        # as stored by versions before
        f, args, state = Sub.__reduce__(np.arange(3).view(Sub)); r = _dill._create_array(f, args, state, {'x': 1}); check(type(r) is Sub and r.x == 1 and r.tolist() == [0, 1, 2], 'older pickles')
