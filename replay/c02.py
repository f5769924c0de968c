from oracle import *
import dill, sys, os, types, random, warnings, pickle, io, functools, inspect
import dill._dill as D
warnings.simplefilter('ignore')
CO = [n for n in dir((lambda: 0).__code__) if n.startswith('co_') and n not in ('co_lnotab', 'co_lines', 'co_positions', 'co_consts')]


def same_code(a, b):
    if any(getattr(a, n) != getattr(b, n) for n in CO): return False
    ca, cb = a.co_consts, b.co_consts
    return len(ca) == len(cb) and all(same_code(x, y) if isinstance(x, types.CodeType) and isinstance(y, types.CodeType) else type(x) is type(y) and repr(x) == repr(y) for x, y in zip(ca, cb))


def snap(f):
    return (f.__code__, f.__name__, f.__qualname__, f.__module__, f.__defaults__, f.__kwdefaults__ and dict(f.__kwdefaults__), dict(f.__annotations__), dict(f.__dict__), f.__doc__,
            f.__closure__ and [(c, full(c)) for c in f.__closure__], f.__globals__, dict(f.__globals__), f.__dict__)


class Empty: pass
def full(c):
    try: return c.cell_contents
    except ValueError: return Empty


def same_snap(a, b):
    return len(a) == len(b) and all(x is y or type(x) is type(y) and ((isinstance(x, dict) and x.keys() == y.keys() and list(x) == list(y) and all(x[k] is y[k] for k in x)) or (isinstance(x, list) and all(p[0] is q[0] and p[1] is q[1] for p, q in zip(x, y))) or isinstance(x, str) and x == y) for x, y in zip(a, b))


def compare(f, g, what):
    check(type(g) is types.FunctionType and g is not f, '%s: a function is loaded: %r' % (what, g))
    check(same_code(g.__code__, f.__code__), '%s: code' % what)
    for n in ('__name__', '__qualname__', '__module__', '__kwdefaults__', '__annotations__'):
        x, y = getattr(f, n), getattr(g, n)
        if n == '__annotations__' and any(not isinstance(v, (str, type)) for v in x.values()): check(list(x) == list(y), '%s: annotations' % what); continue
        eq(y, x, '%s: %s' % (what, n))
    check(repr(g.__defaults__) == repr(f.__defaults__) and type(g.__defaults__) is type(f.__defaults__), '%s: defaults: %r %r' % (what, g.__defaults__, f.__defaults__))
    check(type(g.__dict__) is type(f.__dict__) and list(g.__dict__) == list(f.__dict__), '%s: attributes: %r %r' % (what, g.__dict__, f.__dict__))
    if f.__doc__ is not None: eq(g.__doc__, f.__doc__, '%s: docstring' % what)
    check((f.__closure__ is None) == (g.__closure__ is None) and len(f.__closure__ or ()) == len(g.__closure__ or ()), '%s: closure' % what)


def one(f, what, **kw):
    before = snap(f)
    data = dill.dumps(f, **kw)
    check(same_snap(before, snap(f)), '%s: the original is not changed' % what)
    g = dill.loads(data)
    compare(f, g, what)
    a, b, c = dill.loads(dill.dumps([f, {'k': f}, (f,)], **kw))
    check(a is b['k'] is c[0], '%s: one function for every reference' % what)
    compare(f, a, what + ' in a list')
    return g


SOURCES = {
    'plain': 'def f(): return 1',
    'doc': 'def f():\n  "doc string"\n  return 1',
    'defaults': 'def f(a, b=1, *c, d, e=[2], **g): return a',
    'kwonly': 'def f(*, a=1, b={}): return a',
    'onlykw_nodefault': 'def f(*, a): return a',
    'posonly': 'def f(a, b=2, /, c=3): return a',
    'annotated': 'def f(a: int, b: "str" = "x", *c: float, d: bytes = b"", **e: list) -> dict: return a',
    'generator': 'def f(n=3):\n  "g"\n  for i in range(n): yield i',
    'coroutine': 'async def f(x=1): return x',
    'asyncgen': 'async def f(x=1): yield x',
    'lambda_': 'f = lambda x, y=2: (x, y)',
    'nested': 'def f(x):\n  def g(y):\n    def h(): return x, y\n    return h\n  return g',
    'comprehension': 'def f(n): return [i*j for i in range(n) for j in {k: k for k in range(i)}]',
    'globals_': 'v = 3\ndef f(): return v',
    'many_consts': 'def f(): return (1, 1.0, True, 0, 0.0, -0.0, False, None, ..., b"", "", (), frozenset({1}), 1j, "\\ud800", 10**40)',
    'unicode': 'def \u00e9t\u00e9(\u03b1=1): return \u03b1\nf = \u00e9t\u00e9',
    'raises': 'def f():\n  try: raise ValueError(1)\n  except ValueError as e: return 2',
    'method': 'class K:\n  def f(self): return __class__, super().__init__()\nf = K.__dict__["f"]',
    'mangled': 'class K:\n  def f(self): return self.__x\nf = K.__dict__["f"]',
    'closure': 'def mk(a, b):\n  def f(): return a, b\n  return f\nf = mk(1, [2])',
    'selfref': 'def mk():\n  def f(n): return f(n-1) if n else 0\n  return f\nf = mk()',
    'emptycell': 'def mk():\n  def f(): return late\n  if 0: late = 1\n  return f\nf = mk()',
    'wrapped': 'import functools\ndef g(x):\n  "the doc"\n  return x\n@functools.wraps(g)\ndef f(*a): return g(*a)',
    'long': 'def f(x):\n' + ''.join('  x = x + %d\n' % i for i in range(400)) + '  return x',
    'assert_': 'def f(x):\n  assert x, "no"\n  with x as y: pass\n  return y',
}


def made(src, name='um_not_importable'):
    ns = {'__name__': name}
    exec(compile(src, '<made>', 'exec'), ns)
    return ns['f']


@case(timeout=120)
def definitions():
    for n, src in SOURCES.items():
        for kw in ({}, {'recurse': True}, {'byref': True}, {'protocol': 0}, {'protocol': 1}, {'protocol': 2}, {'protocol': 3}, {'protocol': 5}):
            if not ('byref' in kw and n in ('method', 'mangled')): one(made(src), '%s %s' % (n, kw), **kw)
    f = made('import functools\ndef g(): pass\n@functools.wraps(g)\ndef f(): return 1')
    g = one(f, 'wraps'); check('__wrapped__' in g.__dict__ and g.__wrapped__.__name__ == 'g', 'the wrapped function is kept')


@case(timeout=120)
def changed_parts():
    """functions whose parts were changed after they were made"""
    def mk(): return made(SOURCES['annotated'])
    for n in ('', 'x', 'a.b', '<lambda>', '\u00e9', 'f', 'with space'):
        f = mk(); f.__name__ = n; one(f, 'name %r' % n)
        f = mk(); f.__qualname__ = n; one(f, 'qualified name %r' % n)
        f = mk(); f.__name__ = f.__qualname__ = n; one(f, 'both names %r' % n)
        f = mk(); f.__code__ = f.__code__.replace(co_name=n); one(f, 'code name %r' % n)
        if sys.version_info >= (3, 11):
            f = mk(); f.__code__ = f.__code__.replace(co_qualname=n); one(f, 'code qualified name %r' % n)
            f = mk(); f.__code__ = f.__code__.replace(co_qualname=n); f.__qualname__ = n; one(f, 'qualified name like the code %r' % n)
            f = mk(); f.__code__ = f.__code__.replace(co_qualname=n); f.__name__ = f.__qualname__ = n; one(f, 'all names %r' % n)
    for mod in (None, 'nosuch', '', 'os', '__main__', 'um_not_importable', 'a.b'):
        f = mk(); f.__module__ = mod; one(f, 'module %r' % (mod,))
        f = mk(); f.__module__ = mod; one(f, 'module %r, recurse' % (mod,), recurse=True)
        f = types.FunctionType(mk().__code__, {}, 'f'); f.__module__ = mod; one(f, 'module %r, no name in the globals' % (mod,))
        f = types.FunctionType(mk().__code__, {'__name__': mod}, 'f'); f.__module__ = 'other'; one(f, 'another module %r' % (mod,))
        f = types.FunctionType(mk().__code__, {'__name__': mod}, 'f'); one(f, 'the module of its globals %r' % (mod,))
    for d in ('', 'x', 'y' * 5000, 5, ['l'], (), 0, False):
        f = mk(); f.__doc__ = d; one(f, 'docstring %r' % (d,))
        f = made(SOURCES['doc']); f.__doc__ = d; one(f, 'other docstring %r' % (d,))
    for kd in (None, {}, {'d': 1}, {'d': None, 'extra': 2}):
        f = mk(); f.__kwdefaults__ = kd; one(f, 'keyword defaults %r' % (kd,))
    for df in (None, (), (None,), (1, 2), ([],), ('a', {'b': 1})):
        f = mk(); f.__defaults__ = df; one(f, 'defaults %r' % (df,))
    for an in ({}, {'return': int}, {'zz': 'T'}, {'a': None}):
        f = mk(); f.__annotations__ = an; one(f, 'annotations %r' % (an,))
    for at in ({}, {'a': 1}, {'a': None, '__b': [1]}, {'__doc__x': 2, 'func_name': 3}, {'not an identifier': 1}):
        f = mk(); f.__dict__.update(at); g = one(f, 'attributes %r' % (at,)); eq(g.__dict__, at, 'attributes')
        g = one(f, 'attributes %r, recurse' % (at,), recurse=True); eq(g.__dict__, at, 'attributes')
    import collections
    f = mk(); f.__dict__ = collections.OrderedDict(b=1, a=2); g = one(f, 'an ordered attribute dictionary'); eq(g.__dict__, f.__dict__, 'attributes')
    f = mk(); del f.__annotations__; one(f, 'deleted annotations')


@case(timeout=100)
def random_functions():
    rnd = random.Random(Counter.seed)
    for i in range(150 if Counter.tier == 'quick' else 1500):
        src = rnd.choice(list(SOURCES.values()))
        f = made(src, rnd.choice(['um', 'os', '__main__', 'nosuch.mod']))
        for _ in range(rnd.randrange(5)):
            w = rnd.randrange(9); s = rnd.choice(['', 'q', 'A.b', 'f', 'z' * 300])
            if w == 0: f.__name__ = s
            elif w == 1: f.__qualname__ = s
            elif w == 2: f.__doc__ = s
            elif w == 3: f.__module__ = rnd.choice([s, None, 'os'])
            elif w == 4: f.__kwdefaults__ = {s or 'k': rnd.random()}
            elif w == 5: f.__annotations__ = {s or 'a': rnd.choice([int, 'T'])}
            elif w == 6: f.__dict__[s or 'attr'] = rnd.randrange(100)
            elif w == 7: f.__defaults__ = tuple(range(rnd.randrange(f.__code__.co_argcount + 1)))
            else: f.__code__ = f.__code__.replace(co_name=s or 'n', co_filename=s, co_firstlineno=rnd.randrange(1, 9999))
        one(f, 'random %d' % i, recurse=rnd.random() < .3, protocol=rnd.randrange(6))


@case()
def sharing():
    """parts shared with the rest of the graph stay shared"""
    shared = []
    f = made('def mk(s):\n  def f(a=s, *, b=s): return s, a, b\n  return f\nf = mk(None)')
    g = types.FunctionType(f.__code__, f.__globals__, 'f', (shared,), (types.CellType(shared),)); g.__kwdefaults__ = {'b': shared}; g.attr = shared; g.__annotations__ = {'x': shared}
    for kw in ({}, {'recurse': True}, {'protocol': 2}):
        s, h = dill.loads(dill.dumps([shared, g], **kw))
        check(h.__defaults__[0] is s and h.__kwdefaults__['b'] is s and h.attr is s and h.__annotations__['x'] is s and h.__closure__[0].cell_contents is s, 'shared parts')
        h, s = dill.loads(dill.dumps([g, shared], **kw))
        check(h.__defaults__[0] is s and h.__kwdefaults__['b'] is s and h.attr is s, 'shared parts')
    f = made(SOURCES['plain']); f.me = f; f.__defaults__ = None; f.__kwdefaults__ = {'k': f}; f.__annotations__ = {'a': f}
    for kw in ({}, {'recurse': True}, {'protocol': 0}):
        g = dill.loads(dill.dumps(f, **kw)); check(g.me is g and g.__kwdefaults__['k'] is g and g.__annotations__['a'] is g, 'a function which refers to itself')
    fs = [made(s) for s in SOURCES.values()] * 2
    gs = dill.loads(dill.dumps(fs)); n = len(fs) // 2
    check(all(gs[i] is gs[i + n] for i in range(n)) and len({id(g) for g in gs}) == n, 'references to the same function, and to others')


@case()
def other_picklers():
    class Sub(dill.Pickler): pass
    for n, src in SOURCES.items():
        f = made(src); before = snap(f)
        b = io.BytesIO(); Sub(b).dump(f); compare(f, dill.loads(b.getvalue()), 'subclass %s' % n)
        if n not in ('selfref', 'method'): compare(f, pickle._loads(pickle._dumps(f)), "pickle's own pickler %s" % n)
        check(same_snap(before, snap(f)), 'the original is not changed')
        compare(f, dill.copy(f), 'copy %s' % n)


@case()
def other_process():
    fs = []
    for n, src in SOURCES.items():
        f = made(src); fs.append((n, f))
    data = dill.dumps(fs)
    open('p', 'wb').write(data)
    out = child('''
import sys, dill
sys.path.insert(0, %r)
import c02
for n, f in dill.load(open(sys.argv[1], 'rb')): c02.compare(c02.made(c02.SOURCES[n]), f, 'other process ' + n)
print('ok')
''' % os.path.dirname(os.path.abspath(__file__)), os.path.abspath('p'))
    check(out.strip() == 'ok', 'in another process')


@case()
def in_main():
    code = '''
import sys, dill
sys.path.insert(0, %r)
import c02, functools
glob = 5
def f(a, b=[1], *, c: int = 2) -> str:
    "doc"
    return a, b, c, glob
f.x = 1
def outer():
    n = 0
    def inc():
        nonlocal n; n += 1; return n
    return inc
class K:
    def m(self): return 1
    @staticmethod
    def s(): return 2
@functools.wraps(f)
def w(*a): return f(*a)
for o in (f, outer, outer(), K.m, K.s, w, lambda: glob):
    for kw in ({}, {'recurse': True}): c02.one(o, repr(o), **kw)
print('ok')
''' % os.path.dirname(os.path.abspath(__file__))
    open('m.py', 'w').write(code)
    import subprocess
    r = subprocess.run([sys.executable, '-B', 'm.py'], capture_output=True, text=True)
    check(r.stdout.strip() == 'ok', r.stderr[-800:])
