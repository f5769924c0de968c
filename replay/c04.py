from oracle import *
import dill, sys, os, types, random, warnings, pickle, io, builtins
import dill._dill as D
warnings.simplefilter('ignore')
BN = ('__name__', '__builtins__')


def mod(name, src, register=True):
    m = types.ModuleType(name); m.__file__ = None
    if register: sys.modules[name] = m
    exec(compile(src, '<%s>' % name, 'exec'), m.__dict__)
    return m


def made(src, **ns):
    exec(compile(src, '<made>', 'exec'), ns)
    return ns['f'], ns


def alike(x, y):
    if isinstance(x, types.FunctionType): return isinstance(y, types.FunctionType) and x.__code__.co_code == y.__code__.co_code
    if isinstance(x, (types.ModuleType, type)): return getattr(x, '__name__', 0) == getattr(y, '__name__', 1)
    if type(x).__eq__ is object.__eq__: return type(x).__name__ == type(y).__name__ and vars(x) == vars(y)
    return type(x) is type(y) and x == y


def copied(f, g, what, want, extra=BN):
    """g's globals: a new dictionary with exactly the wanted entries and __name__ and __builtins__"""
    d = g.__globals__
    check(d is not f.__globals__, '%s: a new dictionary' % what)
    check('__builtins__' in d, '%s: has __builtins__' % what)
    check(set(d) - set(extra) == set(want) - set(extra), '%s: entries %r, wanted %r' % (what, sorted(map(str, d)), sorted(map(str, want))))
    for k in want:
        if k != '__builtins__': check(alike(want[k], d[k]), '%s: entry %r: %r, wanted %r' % (what, k, d[k], want[k]))
    if '__name__' not in want: check(d.get('__name__') == f.__module__, '%s: __name__ is the module: %r' % (what, d.get('__name__')))


def go(f, **kw):
    before = (dict(f.__globals__), list(f.__globals__), f.__globals__)
    data = dill.dumps(f, **kw)
    check(f.__globals__ is before[2] and list(f.__globals__) == before[1] and all(f.__globals__[k] is v for k, v in before[0].items()), 'the original globals are not changed')
    return dill.loads(data)


MAKERS = {
    'one': ('def f(): return a', dict(a=1)),
    'unused': ('def f(): return a', dict(a=[1], b=2, c='x', d=None)),
    'none': ('def f(): return 1', {}),
    'helper': ('def h(): return a\ndef f(): return h()', dict(a=3, z=4)),
    'mutual': ('def h(n): return f(n-1) if n else a\ndef f(n=3): return h(n-1) if n else a', dict(a=5, z=6)),
    'self': ('def f(n=3): return f(n-1) if n else a', dict(a=7)),
    'cls': ('class K:\n  x = 1\n  def m(self): return a\ndef f(): return K().m()', dict(a=8)),
    'module': ('import os\ndef f(): return os.sep', dict(z=1)),
    'lambda_': ('f = lambda: a + b', dict(a=1, b=2)),
    'nested': ('def f():\n  def g():\n    def h(): return a\n    return h()\n  return g()', dict(a=9, b=1)),
    'comp': ('def f(): return [a + i for i in range(b)]', dict(a=1, b=2)),
    'builtin': ('def f(): return len(a), max(1, 2)', dict(a=[1])),
    'shadow_builtin': ('def f(): return len(a)', dict(a=[1], len=sum)),
    'closure': ('def h(): return a\ndef mk(x):\n  def f(): return x, h()\n  return f\nf = mk(3)', dict(a=1, b=2)),
    'closure_helper': ('def mk(x):\n  def k(): return x, a\n  return k\nh = mk(1)\ndef f(): return h()', dict(a=1, b=2)),
    'default': ('def g(): return a\ndef f(x=g): return x()', dict(a=2)),
    'global_stmt': ('def f():\n  global a\n  a = b\n  return a', dict(a=1, b=2)),
    'instance': ('class K:\n  pass\nk = K(); k.v = 3\ndef f(): return k.v', {}),
    'names': ('def f(): return __name__', {'__name__': 'zz', 'a': 1}),
    'odd_names': ('def f(): return a', {'a': 1, '': 2, 'with space': 3, '\u00e9': 4, '__x': 5, '__file__': 'ff', '__doc__': 'dd', '__spec__': None, '__loader__': None}),
}


@case(timeout=100)
def whole_globals():
    for n, (src, ns) in MAKERS.items():
        for name in (None, 'not_importable', 'os', '__main__'):
            for kw in ({}, {'protocol': 0}, {'protocol': 2}, {'byref': False}):
                nn = dict(ns)
                if name and '__name__' not in nn: nn['__name__'] = name
                f, G = made(src, **nn)
                r0 = f(); want = dict(G)
                if n == 'cls': want = dict(want)
                g = go(f, **kw)
                copied(f, g, '%s in %s %r' % (n, name, kw), want)
                check(alike(g(), r0) or g() == r0, '%s: runs' % n)


@case()
def entries_as_at_dump_time():
    f, G = made('def f(): return a, b', a=[1], b=2)
    data = dill.dumps(f); G['a'] = 'later'; del G['b']; G['c'] = 3
    g = dill.loads(data)
    check(g() == ([1], 2) and 'c' not in g.__globals__, 'entries at dump time')
    g.__globals__['a'] = 0; check(G['a'] == 'later' and dill.loads(data)()[0] == [1], 'each load has its own')
    # functions of one dictionary share the new one
    f, G = made('def h(): return a\ndef f(): return h()', a=1)
    f2, h2 = dill.loads(dill.dumps((f, G['h'])))
    check(h2 is f2.__globals__['h'], 'one copy of the helper')
    r = dill.loads(dill.dumps([f, G])); check(r[0].__globals__['a'] == 1 and r[1]['a'] == 1, 'with its dictionary')


@case()
def big_and_awkward_globals():
    ns = {('n%d' % i): i for i in range(5000)}
    f, G = made('def f(): return n0 + n4999', **ns); copied(f, go(f), 'many', dict(G))
    f, G = made('def f(): return a', a=None); G[5] = 'int key'; G[(1, 2)] = 't'; G[None] = 0
    copied(f, go(f), 'keys which are no strings', dict(G))
    f, G = made('def f(): return a', a=1); G['me'] = G; g = go(f); check(g.__globals__['me']['a'] == 1, 'a dictionary which contains itself')
    f, G = made('def f(): return a', a=1); G['__builtins__'] = {'len': len}; g = go(f); check(g.__globals__['__builtins__'] == {'len': len}, 'builtins of its own are kept')
    code = f.__code__
    f = types.FunctionType(code, {}, 'f'); g = go(f); check(set(g.__globals__) <= {'__name__', '__builtins__'} and '__builtins__' in g.__globals__, 'empty globals'); raises(NameError, g)
    f = types.FunctionType(code, {'a': 4}, 'f'); g = go(f); check(g() == 4 and set(g.__globals__) - set(BN) == {'a'}, 'globals without builtins')
    check('__builtins__' not in f.__globals__, 'the original globals are not changed')
    for m in (None, 'x', 5):
        f = types.FunctionType(code, {'a': 4, '__name__': m}, 'f'); g = go(f); check(g.__globals__['__name__'] == m, '__name__ as it was'); check(g() == 4, 'runs')


@case()
def importable_module():
    m = mod('um', 'v = 1\ndef f(): return v\ndef mk():\n  def g(): return v\n  return g\nlam = lambda: v')
    for f in (m.mk(), m.lam):
        before = dict(vars(m))
        for kw in ({}, {'protocol': 0}, {'protocol': 2}):
            data = dill.dumps(f, **kw)
            check(len(data) < 600, 'the dictionary itself is not stored')
            g = dill.loads(data)
            check(g.__globals__ is vars(m), "the importable module's own dictionary")
            check(vars(m) == before, 'the module is not changed')
    m.v = 9; check(g() == 9, 'a live reference')
    # a copy of the dictionary is not the module's own
    f = types.FunctionType(m.lam.__code__, dict(vars(m)), 'lam'); f.__module__ = 'um'
    g = go(f); copied(f, g, 'an equal dictionary', dict(f.__globals__))
    # the module was replaced
    f = m.mk(); n = mod('um', 'v = 2')
    g = go(f); check(g.__globals__ is not vars(n) and g() == 9, 'another module of that name'); copied(f, g, 'another module', dict(f.__globals__))
    # the function says it belongs to another module
    m = mod('um', 'v = 1\nlam = lambda: v'); mod('un', 'v = 5'); m.lam.__module__ = 'un'; g = go(m.lam); check(g() == 1 and g.__globals__ is not vars(sys.modules['un']), 'a function with another module name')
    m.lam.__module__ = None; g = go(m.lam); check(g() == 1, 'a function with no module name')
    del sys.modules['um']; m.lam.__module__ = 'um'; g = go(m.lam); check(g() == 1 and g.__globals__ is not vars(m), 'a module that is not importable')
    sys.modules['um'] = None; g = go(m.lam); check(g() == 1, 'a blocked module')
    # modules of the interpreter
    import json.decoder
    f = types.FunctionType((lambda: NaN).__code__, vars(json.decoder), 'zz'); f.__module__ = 'json.decoder'
    check(dill.loads(dill.dumps(f)).__globals__ is vars(json.decoder), 'a submodule')


def reach(f):
    """names of f's globals it reaches, by an independent walk"""
    G = f.__globals__; B = vars(builtins); out = {}; seen = set()
    def code_names(c):
        import dis
        s = {i.argval for i in dis.get_instructions(c) if i.opname in ('LOAD_GLOBAL', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'LOAD_NAME')}
        for k in c.co_consts:
            if isinstance(k, types.CodeType): s |= code_names(k)
        return s
    def walk(x):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, types.FunctionType):
            for c in x.__closure__ or ():
                try: walk(c.cell_contents)
                except ValueError: pass
            if x.__globals__ is not G: return
            for n in code_names(x.__code__):
                if n in G: out[n] = G[n]; walk(G[n])
                elif n in B: out[n] = B[n]
    walk(f)
    return out


@case()
def recurse_setting():
    for n, (src, ns) in MAKERS.items():
        for name in (None, 'not_importable', 'os', '__main__'):
            nn = dict(ns)
            if name and '__name__' not in nn: nn['__name__'] = name
            f, G = made(src, **nn); r0 = f()
            want = reach(f)
            if n in ('global_stmt', 'cls', 'instance', 'default', 'closure_helper'): want = None
            g = go(f, recurse=True)
            check(alike(g(), r0) or g() == r0, '%s: runs' % n)
            if n == 'global_stmt': want = {'a': G['a'], 'b': G['b']}
            if want is None: continue
            check('__builtins__' in g.__globals__, '%s: has __builtins__' % n)
            got = {k for k in g.__globals__ if k not in BN and not (k in vars(builtins) and g.__globals__[k] is vars(builtins)[k])}
            exp = {k for k in want if k not in BN and not (k in vars(builtins) and want[k] is vars(builtins)[k])}
            check(got == exp, '%s: recurse: entries %r, wanted %r' % (n, sorted(got), sorted(exp)))
            for k in exp: check(alike(want[k], g.__globals__[k]), '%s: entry %r' % (n, k))
    m = mod('um', 'v = 1\nw = 2\nlam = lambda: v')
    g = go(m.lam, recurse=True); check(g.__globals__ is not vars(m) and set(g.__globals__) == {'v', '__name__', '__builtins__'} and g.__globals__['__name__'] == 'um', "recurse: never the module's own")
    m.v = 5; check(g() == 1, 'a value of its own')


@case()
def recurse_nested_and_cycles():
    src = '''
def f(n=4): return g(n-1) if n > 0 else (a, table['k'](0))
def g(n): return h(n-1) if n > 0 else a
def h(n): return f(n-1) if n > 0 else a
def unused(): return big
def leaf(n): return a
table = {'k': leaf}
class C:
    def m(self): return f(0)
a = 3; big = 'x' * 1000
'''
    for kw in ({}, {'recurse': True}):
        f, G = made(src)
        r0 = f()
        k = go(f, **kw); check(k() == r0, 'runs in a cycle')
        check(k.__globals__['g'].__globals__['h'].__globals__['f'] is k, 'the cycle is closed: %r' % (kw,))
        if not kw: check(k.__globals__['g'].__globals__ is k.__globals__ or set(k.__globals__['g'].__globals__) >= {'a', 'h'}, 'helpers have theirs')
        check(('big' in k.__globals__) == (not kw), 'unreached names')
        c = dill.loads(dill.dumps(G['C'], **kw)); check(c().m() == f(0), 'a class')
    f, G = made('def d(fn):\n  def w(*a): return fn(*a) + off\n  return w\noff = 10\n@d\ndef f(x): return x * k\nk = 2')
    for kw in ({}, {'recurse': True}):
        g = dill.loads(dill.dumps(f, **kw)); check(g(4) == 18, 'decorated')


@case(timeout=100)
def runs_in_another_process():
    fs = []; want = []
    for n, (src, ns) in MAKERS.items():
        for name in (None, 'not_importable'):
            nn = dict(ns)
            if name and '__name__' not in nn: nn['__name__'] = name
            for kw in ({}, {'recurse': True}):
                f, G = made(src, **nn); want.append(repr(f())); fs.append(dill.dumps(f, **kw))
    pickle.dump((fs, want), open('p', 'wb'))
    out = child('''
import pickle, sys, dill
fs, want = pickle.load(open(sys.argv[1], 'rb'))
for p, w in zip(fs, want):
    f = dill.loads(p); assert '__builtins__' in f.__globals__; r = repr(f()); assert r == w or 'object at' in r, (r, w)
print('ok')
''', os.path.abspath('p'))
    check(out.strip() == 'ok', 'in another process')
    code = '''
import dill, sys
v = 5; big = 'y' * 3000
def f(): return v
class K:
    def m(self): return v
if sys.argv[1:]:
    sys.stdout.buffer.write(dill.dumps((f, K), recurse=sys.argv[1] == 'r'))
'''
    open('mm.py', 'w').write(code)
    import subprocess
    for r in 'rn':
        p = subprocess.run([sys.executable, '-B', 'mm.py', r], capture_output=True).stdout
        out = child('''
import dill, sys
v = 'not this'
f, K = dill.loads(sys.stdin.buffer.read())
print(f() if sys.argv[1] == 'r' else 'v' in f.__globals__, f.__globals__['__name__'], f.__globals__ is globals())
''', r, stdin=p)
        check(out.split() == (['5', '__main__', 'False'] if r == 'r' else ['True', '__main__', 'True']), 'from the main module: %r' % out)
        check((b'yyyy' in p) is False, 'globals of the main module are not stored')


@case()
def stock_pickler():
    for n, (src, ns) in MAKERS.items():
        f, G = made(src, **ns); G.pop('__builtins__'); r0 = f()
        for p in range(6):
            g = pickle._loads(pickle._dumps(f, p))
            check(g() == r0 or 'object' in repr(r0), '%s: runs' % n)
            check(set(g.__globals__) - set(BN) == set(G) - set(BN) and '__builtins__' in g.__globals__, '%s: entries' % n)


@case(timeout=100)
def random_globals():
    rnd = random.Random(Counter.seed)
    for i in range(100 if Counter.tier == 'quick' else 1000):
        names = ['v%d' % j for j in range(rnd.randrange(1, 9))]
        ns = {n: rnd.choice([1, 'x', None, [1], (2,), {'a': 1}, 2.5, b'', True]) for n in names}
        body = ''; fns = []
        for j in range(rnd.randrange(1, 6)):
            use = rnd.sample(names, rnd.randrange(len(names) + 1)); calls = rnd.sample(fns, rnd.randrange(len(fns) + 1))
            body += 'def g%d(): return (%s)\n' % (j, ''.join(x + ', ' for x in use + ['%s()' % c for c in calls])); fns.append('g%d' % j)
        body += 'f = %s\n' % rnd.choice(fns) if rnd.random() < .6 else 'def mk(q):\n  def f(): return q, %s()\n  return f\nf = mk(1)\n' % rnd.choice(fns)
        nm = rnd.choice([None, 'os', 'no_such'])
        if nm: ns['__name__'] = nm
        f, G = made(body, **ns); r0 = f()
        g = go(f); copied(f, g, 'random %d' % i, dict(G)); check(g() == r0, 'runs')
        g = go(f, recurse=True); check(g() == r0, 'runs')
        want = set(reach(f)); check(set(g.__globals__) - set(BN) == want - set(BN), 'random %d: %r %r' % (i, sorted(g.__globals__), sorted(want)))
