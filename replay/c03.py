from oracle import *
import pickletools, dill, sys, os, types, importlib, random, warnings, pickle, io
import dill._dill as D
warnings.simplefilter('ignore')
REF_OPS = {'PROTO', 'FRAME', 'SHORT_BINUNICODE', 'BINUNICODE', 'MEMOIZE', 'STACK_GLOBAL', 'GLOBAL', 'BINPUT', 'STOP', 'BINGET'}


def is_ref(data): return {op.name for op, _, _ in pickletools.genops(data)} <= REF_OPS


def resolves(obj):
    """the definition, written independently: import the recorded module, follow the recorded qualified name"""
    mod = obj.__module__
    if not isinstance(mod, str) or mod == '__main__': return False
    try: cur = importlib.import_module(mod)
    except Exception: return False
    for part in obj.__qualname__.split('.'):
        if part == '<locals>': return False
        try: cur = getattr(cur, part)
        except Exception: return False
    return cur is obj


def probe(obj, what, want=None, run=True, **kw):
    spec = resolves(obj)
    if want is not None: assert spec is want, '%s: the definition says %s' % (what, spec)
    before = set(sys.modules)
    data = dill.dumps(obj, **kw)
    if not isinstance(obj.__module__, str) or not obj.__module__ in before: pass
    ref = is_ref(data)
    check(ref == spec, '%s: stored by %s' % (what, 'reference' if ref else 'value'))
    if ref: check(dill.loads(data) is obj, '%s: the reference loads as that object' % what); return
    copy = dill.loads(data)
    check(copy is not obj and type(copy) is type(obj), '%s: a copy is loaded' % what)
    check(copy.__qualname__ == obj.__qualname__ and copy.__module__ == obj.__module__, '%s: it is named alike: %r %r' % (what, copy.__qualname__, copy.__module__))
    if run and isinstance(obj, types.FunctionType): check(copy() == obj(), '%s: it works' % what)
    return copy


SRC = '''
def f(): return 1
def g(): return 2
class A:
    x = 1
    def m(self=0): return 3
    class B:
        def n(self=0): return 4
        class C: pass
def local():
    def f(): return 5
    class A: y = 6
    return f, A
alias = g
lam = lambda: 7
'''


def mod(name, src=SRC, register=True):
    m = types.ModuleType(name); m.__file__ = None
    if register: sys.modules[name] = m
    exec(compile(src, '<%s>' % name, 'exec'), m.__dict__)
    return m


def both(m): return [m.f, m.g, m.A, m.A.B, m.A.B.C, m.A.__dict__['m'], m.A.B.__dict__['n']]


@case()
def importable():
    m = mod('um')
    for o in both(m): probe(o, o.__qualname__, True)
    f, A = m.local()
    probe(f, 'local f', False); probe(A, 'local A', False)
    probe(m.lam, 'lambda', False)
    m.lam.__qualname__ = 'lam'; probe(m.lam, 'named lambda', True)
    m.lam.__name__ = 'other'; probe(m.lam, 'the name does not matter', True)
    import json, collections, enum, functools
    for o in (json.dumps, json.JSONEncoder, json.JSONEncoder.encode, collections.OrderedDict, enum.Enum, functools.wraps, dill.dumps, os.path.join, importlib.import_module):
        probe(o, repr(o), True)


@case()
def pickled_by_protocol():
    m = mod('um')
    for p in range(0, 6):
        for o in both(m):
            data = dill.dumps(o, protocol=p)
            check(b'_create_function' not in data and b'_create_type' not in data and dill.loads(data) is o, 'protocol %d: %s' % (p, o.__qualname__))
        for o in m.local():
            data = dill.dumps(o, protocol=p)
            check(b'_create_' in data and dill.loads(data) is not o, 'protocol %d: local %s' % (p, o.__qualname__))


@case()
def shadowed_redefined_deleted():
    m = mod('um'); olds = both(m)
    exec(SRC, m.__dict__)                       # redefined
    for o in olds: probe(o, 'redefined ' + o.__qualname__, False)
    for o in both(m): probe(o, 'new ' + o.__qualname__, True)
    m = mod('um'); n = mod('un')
    m.f, m.g = m.g, m.f; probe(m.f, 'swapped', False); probe(m.g, 'swapped', False)
    m = mod('um'); f, A, B, C, meth = m.f, m.A, m.A.B, m.A.B.C, m.A.__dict__['m']
    del A.B.C; probe(C, 'deleted C', False); probe(B, 'B is still there', True)
    A.B = n.A.B; probe(B, 'another B', False)
    del A.m; probe(meth, 'deleted method', False)
    A.m = staticmethod(meth); probe(meth, 'static method found through its class', True)
    A.m = classmethod(meth); probe(meth, 'a class method is not the function', False)
    A.m = property(meth); probe(meth, 'a property is not the function', False)
    del m.f; probe(f, 'deleted f', False)
    m.f = None; probe(f, 'None in its place', False)
    f.__module__ = 'un'; probe(f, 'the other module has another f', False)
    n.f = f; probe(f, 'moved', True)
    f.__qualname__ = 'A.f'; probe(f, 'not in A', False)
    n.A.f = f; probe(f, 'in A', True)
    f.__qualname__ = 'f'; f.__name__ = 'zz'; probe(f, 'name', True)


@case()
def look_alikes():
    """only the identical object counts, however equal another one claims to be"""
    m = mod('um', SRC + '''
class Meta(type):
    def __eq__(cls, other): return True
    def __hash__(cls): return 1
class E(metaclass=Meta): pass
''')
    E = m.E; probe(E, 'itself', True)
    m.E = m.Meta('E', (), {'__module__': 'um', '__qualname__': 'E'}); probe(E, 'an equal class in its place', False); probe(m.E, 'that one', True)
    class Any:
        def __eq__(self, o): return True
        def __hash__(self): return 2
    m.f, f = Any(), m.f; probe(f, 'an equal object', False)
    import functools
    m.f = functools.wraps(f)(lambda: 1); probe(f, 'a wrapper', False); 
    m.f.__qualname__ = 'f'; probe(m.f, 'the wrapper itself', True)
    check(f.__name__ == m.f.__name__, 'same name')


@case(timeout=100)
def bad_modules():
    bad = ['', '.', '..', 'a..b', 'no.such', 'nosuch', 5, None, ('x',), 2.5, 'json.nosuch', 'json.', '.json', '__main__', '__main__ ', '__runtime__.x', '__runtime__.', 'um.A', 'um.f', 'um.A.B', 'sys.modules', 'dill.no', 'none_here', 'raises_z', 'raises_k', 'raises_i', 'raises_pkg.sub', '\ud800', 'x' * 500]
    os.mkdir('d'); sys.path.insert(0, os.path.abspath('d'))
    for n, s in (('raises_z', '1/0'), ('raises_k', 'raise KeyError(1)'), ('raises_i', 'import nosuchmodule'), ):
        open('d/%s.py' % n, 'w').write(s)
    os.mkdir('d/raises_pkg'); open('d/raises_pkg/__init__.py', 'w').write(''); open('d/raises_pkg/sub.py', 'w').write('raise RuntimeError(3)')
    sys.modules['none_here'] = None
    for name in bad:
        m = mod('um')
        for o in (m.f, m.A):
            o.__module__ = name
            if name == '\ud800': check(not is_ref(dill.dumps(o)), 'bad module %r' % (name,)); continue
            probe(o, 'module %r: %s' % (name, o.__qualname__), False)
    m = mod('um')
    L = m.A.B; L.__module__ = 'um.A'; L.__qualname__ = 'B'; probe(L, 'the module is a class', False)
    n = m.A.B.__dict__['n']; n.__module__ = 'um.A'; n.__qualname__ = 'B.n'; probe(n, 'the module is a class', False)


@case()
def failing_lookups():
    for e in (KeyError, ValueError, ImportError, RuntimeError, AttributeError, TypeError, RecursionError, StopIteration, OSError):
        m = mod('um'); f, A = m.f, m.A
        del m.f, m.A
        def ga(name, e=e): raise e(name)
        m.__getattr__ = ga
        probe(f, 'lookup raises %s' % e.__name__, False); probe(A, 'lookup raises %s' % e.__name__, False)
        m.__getattr__ = lambda name: {'f': f, 'A': A}[name]
        probe(f, 'found by __getattr__', True); probe(A, 'found by __getattr__', True)


@case()
def qualified_names():
    names = ['', '.', 'K.', '.K', 'K..g', '<locals>.g', 'K.<locals>.g', 'g', 'K.g', 'K.L', '__class__', 'K.L.', '<lambda>', 'K.g.<locals>', '<locals>', 'f.<locals>.g', 'K g', 'K.g ', 'K.\ng', '\u00e9', 'K.__dict__', 'a.b.c.d.e']
    for q in names:
        m = mod('c', 'class K:\n  def g(self=0): return 1\n  class L: pass\n')
        for o in (m.K.__dict__['g'], m.K.L):
            o.__qualname__ = q
            probe(o, 'qualified name %r' % q)
    m = mod('c', 'class K:\n  def g(self=0): return 1\n  class L: pass\n')
    for o in (m.K.__dict__['g'], m.K.L):                 # entries of that very name do not make it a path
        setattr(m, '<locals>', m.K); setattr(m.K, '<locals>', m.K)
        for q in ('<locals>.g', '<locals>.L', 'K.<locals>.g', 'K.<locals>.L', 'K.<locals>.<locals>.g'):
            o.__qualname__ = q; probe(o, 'through %r' % q, False)
        setattr(m, '<locals>', o); o.__qualname__ = '<locals>'; probe(o, 'a name which is <locals>', False)
        o.__qualname__ = 'K.' + ('g' if o is m.K.__dict__['g'] else 'L')
        probe(o, 'found', True)


@case(timeout=120)
def submodules():
    os.makedirs('d/pkg/inner'); sys.path.insert(0, os.path.abspath('d'))
    open('d/pkg/__init__.py', 'w').write('')
    for n in ('a', 'b', 'late', 'inner/__init__', 'inner/c'): open('d/pkg/%s.py' % n, 'w').write(SRC)
    import pkg.a, pkg.b, pkg.inner.c
    for m in (pkg.a, pkg.b, pkg.inner, pkg.inner.c):
        for o in both(m): probe(o, '%s.%s' % (m.__name__, o.__qualname__), True)
        for o in m.local(): probe(o, 'local in %s' % m.__name__, False)
    a, b = sys.modules['pkg.a'], sys.modules['pkg.b']
    pkg.a = b                                             # the parent's attribute is another module
    probe(a.f, 'found by its module name', True); probe(a.A, 'found by its module name', True)
    pkg.a = a
    sys.modules['pkg.a'] = b; probe(a.f, 'another module has its name', False); probe(a.A, 'another module has its name', False)
    sys.modules['pkg.a'] = a; del pkg.a; 
    f = a.f; check(dill.loads(dill.dumps(f)) in (f,) or dill.loads(dill.dumps(f))() == 1, 'no attribute in the parent')
    pkg.a = a
    # a module of that name that was not imported yet has another function
    f = types.FunctionType((lambda: 3).__code__, {'__name__': 'pkg.late'}, 'f'); f.__qualname__ = 'f'; f.__module__ = 'pkg.late'
    probe(f, 'the module on disk has another one', False)


@case()
def main_and_sessions():
    code = '''
import sys, dill, types, io
sys.path.insert(0, %r)
import c03
def f(): return 1
class A:
    class B: pass
    def m(self): return 2
c03.probe(f, 'f', False); c03.probe(A, 'A', False); c03.probe(A.B, 'B', False)
for o in (f, A, A.B, A.m):
    for kw in ({}, {'recurse': True}, {'protocol': 0}, {'protocol': 2}):
        d = dill.dumps(o, **kw)
        assert b'_create_' in d and dill.loads(d) is not o, (o, kw)
# byref is the documented way to keep classes of __main__ as references
assert dill.loads(dill.dumps(A, byref=True)) is A
m = c03.mod('um'); n = c03.mod('un')
m.other = n.f; m.Other = n.A; m.inst = m.A()
b = io.BytesIO(); dill.dump_module(b, m)
import pickletools
d = b.getvalue()
ops = list(pickletools.genops(d))
from c03 import D
class U(D.Unpickler):
    seen = []
    def find_class(self, mod, name):
        U.seen.append((mod, name)); return D.Unpickler.find_class(self, mod, name)
u = U(io.BytesIO(d)); u._session = True; u._main = types.ModuleType('um')
u.load()
assert not [x for x in U.seen if x[0] == 'um'], U.seen
assert {x for x in U.seen if x[0] == 'un'} == {('un', 'f'), ('un', 'A')}, U.seen
c03.probe(m.f, 'after the session', True)
''' % os.path.dirname(os.path.abspath(__file__))
    child(code)
    tick()


@case(timeout=100)
def inside_graphs():
    """the decision is made for each object anywhere in a graph"""
    m = mod('um'); lf, lA = m.local(); old = m.f; exec('def f(): return 9', m.__dict__)
    objs = [m.f, old, m.g, lf, m.A, lA, m.A.B]
    rnd = random.Random(Counter.seed)
    for i in range(60 if Counter.tier == 'quick' else 600):
        pick = [rnd.choice(objs) for _ in range(rnd.randrange(1, 6))]
        g = {'l': pick, 't': tuple(pick), 'i': [o() for o in pick if isinstance(o, type)]}
        for kw in ({}, {'recurse': True}, {'protocol': 2}):
            r = dill.loads(dill.dumps(g, **kw))
            for o, c in zip(pick + pick, r['l'] + list(r['t'])):
                check((c is o) == resolves(o), 'in a graph: %s' % o.__qualname__)


@case()
def decided_at_dump_time():
    m = mod('um'); f, A = m.f, m.A
    probe(f, 'first', True); m.f = 1; probe(f, 'then', False); m.f = f; probe(f, 'again', True)
    del sys.modules['um']; probe(f, 'module gone', False); probe(A, 'module gone', False)
    sys.modules['um'] = m; probe(A, 'module back', True)
    m2 = mod('um'); probe(f, 'another module', False); probe(m2.f, 'its own', True)
    class Lazy(types.ModuleType):
        n = 0
        def __getattr__(self, name):
            if name != 'f': raise AttributeError(name)
            Lazy.n += 1; return f if Lazy.n % 2 else None
    sys.modules['um'] = m


@case()
def metaclasses_and_generics():
    import abc, typing, enum
    m = mod('um', '''
import abc, typing, enum
T = typing.TypeVar('T')
class M(type): pass
class X(metaclass=M): pass
class Y(abc.ABC): pass
class Z(typing.Generic[T]): pass
class P(typing.Protocol): pass
class S: __slots__ = ('a',)
class Ex(Exception): pass
def mk():
    class X(metaclass=M): pass
    class Y(abc.ABC): pass
    class Z(typing.Generic[T]): pass
    class S: __slots__ = ('a',)
    class Ex(Exception): pass
    return X, Y, Z, S, Ex
''')
    for n in 'M X Y Z P S Ex'.split(): probe(getattr(m, n), n, True)
    for o in m.mk(): probe(o, 'local ' + o.__name__, False)
    for n in 'X Y Z S Ex'.split():
        o = getattr(m, n); delattr(m, n); probe(o, 'deleted ' + n, False)
