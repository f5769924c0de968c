from oracle import *
import itertools, os, sys, subprocess
SRC = '''
import os as _os, math
from collections import OrderedDict, deque as dq
x = [1]; y = x; n = 5
def f(): return x
def g(a=x): return f(), n
def setn(v):
    global n; n = v
class A:
    "doc"
    k = x
    def m(self): return f(), A, self
    @staticmethod
    def s(): return n
class B(A):
    def m(self): return super().m()
a = A(); a.me = a; b = B(); b.a = a
lam = lambda: (lam, n)
def outer():
    c = [0]
    def inc(): c[0] += n; return c[0], inc
    def get(): return c[0]
    return inc, get
inc, get = outer()
bound = a.m
me = __import__('sys').modules.get(__name__)
ns = globals()
t = (x, f, A)
gen = None
def rec(k): return 1 if k == 0 else k * rec(k - 1)
part = __import__('functools').partial(f)
f.attr = f
__secret = 3
class Meta(type):
    def __call__(cls, *a): return super().__call__(*a)
class WM(metaclass=Meta): pass
wm = WM()
def ann(q: 'A', w: int = n) -> A: return q
from typing import NamedTuple
import collections
NT = collections.namedtuple('NT', 'a b'); nt = NT(1, x)
import dataclasses
@dataclasses.dataclass
class DC:
    p: list = dataclasses.field(default_factory=list)
dc = DC(x)
prop = property(lambda s: n)
none = None; true = True; nan = float('nan'); big = 10**50; by = b'x'
'''
CHECK = '''
def CHECK(M):
    g = M.__dict__; bad = []
    def ok(c, w):
        try: r = c()
        except BaseException as e: r = False; w += ' %r' % e
        if not r: bad.append(w)
    ok(lambda: M.x == [1] and M.y is M.x, 'x')
    for n, v in list(g.items()):
        if type(v).__name__ == 'function' and getattr(v, '__module__', None) == M.__name__: ok(lambda: v.__globals__ is g, 'globals of ' + n)
        if isinstance(v, type) and v.__module__ == M.__name__:
            for k, w in vars(v).items():
                w = getattr(w, '__func__', w)
                if type(w).__name__ == 'function' and w.__module__ == M.__name__ and w.__qualname__.startswith(v.__name__ + '.') and k not in ('__create_fn__',) and v.__name__ not in ('DC', 'NT', 'Color'): ok(lambda: w.__globals__ is g, 'globals of %s.%s' % (n, k))
    ok(lambda: M.f() is M.x and M.g() == (M.x, 5) and M.g.__defaults__[0] is M.x, 'g')
    def sn(): M.setn(7); r = M.n == 7 and M.lam() == (M.lam, 7) and M.A.s() == 7; M.setn(5); return r
    ok(sn, 'setn')
    ok(lambda: type(M.a) is M.A and M.a.me is M.a and M.a.m() == (M.x, M.A, M.a) and M.A.k is M.x, 'a')
    ok(lambda: type(M.b) is M.B and M.B.__bases__ == (M.A,) and M.b.a is M.a and M.b.m()[2] is M.b, 'b')
    ok(lambda: M.inc()[1] is M.inc and M.get() == 5, 'closures')
    ok(lambda: M.bound.__self__ is M.a and M.bound.__func__ is M.A.m, 'bound')
    ok(lambda: M.me is M, 'me'); ok(lambda: M.ns is g, 'ns')
    ok(lambda: M.t[0] is M.x and M.t[1] is M.f and M.t[2] is M.A, 't')
    ok(lambda: M.rec(5) == 120, 'rec'); ok(lambda: M.part() is M.x and M.part.func is M.f and M.f.attr is M.f, 'part')
    ok(lambda: g['__secret'] == 3, 'secret'); ok(lambda: type(M.WM) is M.Meta and type(M.wm) is M.WM, 'meta')
    ok(lambda: M.ann.__annotations__ == {'q': 'A', 'w': int, 'return': M.A}, 'ann')
    ok(lambda: type(M.nt) is M.NT and M.nt.b is M.x and type(M.dc) is M.DC and M.dc.p is M.x, 'nt')
    ok(lambda: M.none is None and M.true is True and M.nan != M.nan and M.big == 10**50 and M.by == b'x', 'simple')
    import os, math, collections
    ok(lambda: M._os is os and M.math is math and M.dq is collections.deque, 'imports')
    return bad
'''

SETUP = 'import dill, sys, types, warnings; warnings.simplefilter("ignore")\ndill.settings["byref"] = %r; dill.settings["recurse"] = %r\n'


def run(code, what):
    p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=60, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.pathsep.join(filter(None, [os.getcwd(), os.environ.get('PYTHONPATH')]))))
    tick()
    check(p.returncode == 0, '%s: %s' % (what, (p.stderr.strip().splitlines() or ['?'])[-1]))
    return p.stdout.strip()


def there_and_back(save, load, test, what, settings=((0, 0), (1, 0), (0, 1), (1, 1))):
    for s in settings:
        setup = SETUP % (bool(s[0]), bool(s[1]))
        for ref in (False, True):
            w = '%s, byref=%s, recurse=%s, refimported=%s' % ((what,) + s + (ref,))
            if os.path.exists('s.pkl'): os.remove('s.pkl')
            run(setup + save.replace('$REF', 'refimported=%r' % ref), w + ', saving')
            out = run(setup + load + '\n' + test, w + ', loading')
            eq(out, '[]', w)


TEST = 'exec(%r)\nprint(CHECK(M))' % CHECK


@case('main', timeout=200)
def main_():
    there_and_back('exec(compile(%r, "m", "exec"), globals())\ndill.dump_module("s.pkl", $REF)' % SRC,
                   'extra = 9\ndill.load_module("s.pkl"); import __main__ as M; assert M.extra == 9', TEST, 'the main module')


@case('importable', timeout=200)
def importable():
    open('amod.py', 'w').write(SRC)
    there_and_back('import amod\ndill.dump_module("s.pkl", amod, $REF)',
                   'import amod; amod.x = 7; amod.extra = 9\nM = dill.load_module("s.pkl"); assert M is amod and M.extra == 9', TEST, 'a module')
    there_and_back('import amod\ndill.dump_module("s.pkl", "amod", $REF)',
                   'M = dill.load_module("s.pkl"); import amod; assert M is amod', TEST, 'a module not imported before')


RT = 'M = types.ModuleType("rmod"); sys.modules["rmod"] = M; exec(%r, M.__dict__); del sys.modules["rmod"]\nM.me = M\n' % SRC


@case('runtime', timeout=200)
def runtime():
    there_and_back(RT + 'dill.dump_module("s.pkl", M, $REF)', 'M = dill.load_module("s.pkl")', TEST, 'a module made at run time')
    there_and_back(RT + 'dill.dump_module("s.pkl", M, $REF)', 'M = types.ModuleType("rmod"); M.extra = 9; N = dill.load_module("s.pkl", M); assert M.extra == 9', TEST, 'into another module made at run time')


@case('names', timeout=200)
def names():
    """every name is restored, and no others"""
    src = '_a = 1; __b = 2; c__ = 3; d = None; __all__ = ["d"]; __doc__ = "doc"; _e_ = ...; f = NotImplemented; __version__ = "1"; _ = 4; In = 5; loader = 6; builtins = 7; __annotations__ = {"d": int}; extra_name = 8; self = 9; modules = 10; state = [11]\nexit = [].append; quit = lambda: 1; quit.__module__ = None; get_ipython = 14; globals()["no identifier"] = 12\nglobals()[""] = 13\n'
    want = 'want = dict(_a=1, __b=2, c__=3, d=None, __all__=["d"], __doc__="doc", _e_=..., f=NotImplemented, __version__="1", _=4, In=5, loader=6, builtins=7, __annotations__={"d": int}, extra_name=8, self=9, modules=10, state=[11], get_ipython=14); want["no identifier"] = 12; want[""] = 13\n'
    test = want + 'have = vars(M)\nprint([k for k in want if k not in have or have[k] != want[k]] + [k for k in ("exit", "quit") if not callable(have.get(k)) or getattr(have[k], "__module__", 0) is not None])'
    open('bmod.py', 'w').write(src)
    there_and_back('import bmod\ndill.dump_module("s.pkl", bmod, $REF)', 'import bmod\nfor k in list(vars(bmod)):\n  if k not in ("__builtins__", "__loader__", "__spec__", "__name__", "__file__"): del vars(bmod)[k]\nvars(bmod)["kept"] = 1\nM = dill.load_module("s.pkl"); assert M.kept == 1', test, 'a module')
    there_and_back('exec(%r)\ndill.dump_module("s.pkl", $REF)' % src, 'kept = 1\ndill.load_module("s.pkl"); import __main__ as M; assert M.kept == 1', test, 'main')
    there_and_back('M = types.ModuleType("rmod"); exec(%r, M.__dict__)\ndill.dump_module("s.pkl", M, $REF)' % src, 'M = dill.load_module("s.pkl")', test + '\nassert "kept" not in have and set(have) - set(want) <= {"exit", "quit", "__name__", "__package__", "__loader__", "__spec__", "__builtins__", "__session__"}, sorted(set(have) - set(want))', 'runtime')
    # builtins and loader are those of the module that is loaded into
    there_and_back('import bmod\nbmod.__loader__ = 5\nvars(bmod)["__builtins__"] = {"len": 1}\ndill.dump_module("s.pkl", bmod, $REF)', 'import bmod; b, l = bmod.__builtins__, bmod.__loader__\nM = dill.load_module("s.pkl"); assert M.__builtins__ is b and M.__loader__ is l', test, 'builtins and loader')


@case('functions', timeout=200)
def functions():
    """whose globals are the namespace of the module, and whose are not"""
    src = """
x = [1]
def own(): return x
ns2 = {"x": [2], "__name__": __name__}
exec("def other(): return x", ns2); other = ns2["other"]
def renamed(): return x
renamed.__module__ = "elsewhere"; renamed.__qualname__ = "Some.where"; renamed.__name__ = "where"
def nameless(): return x
nameless.__module__ = None
class C:
    def m(self): return x
    @classmethod
    def c(cls): return x
    p = property(lambda self: x)
    def gen(self): return (lambda: x)
held = {"f": [lambda: x, (lambda: x)]}
c = C(); c.f = lambda: x
nested = (lambda: (lambda: x))()
own.inner = lambda: x
def default(h=lambda: x): return h
def deep():
    y = lambda: x
    return lambda: y
deep = deep()
"""
    test = """
bad = []
def same(f, w):
    if f.__globals__ is not vars(M): bad.append('globals of ' + w)
    elif type(f()) is list and f() is not M.x: bad.append('value of ' + w)
for n in ('own', 'renamed', 'nameless', 'nested'): same(getattr(M, n), n)
same(M.held['f'][0], 'held 0'); same(M.held['f'][1], 'held 1'); same(M.c.f, 'c.f'); same(M.c.m, 'm'); same(M.C.c, 'c'); same(M.c.gen(), 'gen'); same(M.own.inner, 'inner'); same(M.default(), 'default'); same(M.deep, 'deep'); same(M.deep(), 'deep()')
if M.c.p is not M.x: bad.append('property')
if M.other.__globals__ is vars(M) or M.other() != [2] or M.other() is M.x: bad.append('other')
if M.renamed.__module__ != 'elsewhere' or M.renamed.__qualname__ != 'Some.where': bad.append('renamed')
if M.nameless.__module__ is not None: bad.append('nameless')
print(bad)
"""
    open('cmod.py', 'w').write(src)
    there_and_back('import cmod\ndill.dump_module("s.pkl", cmod, $REF)', 'M = dill.load_module("s.pkl")', test, 'a module')
    there_and_back('exec(compile(%r, "m", "exec"), globals())\ndill.dump_module("s.pkl", $REF)' % src, 'dill.load_module("s.pkl"); import __main__ as M', test, 'main')
    there_and_back('M = types.ModuleType("rmod"); exec(compile(%r, "m", "exec"), vars(M))\ndill.dump_module("s.pkl", M, $REF)' % src, 'M = dill.load_module("s.pkl")', test, 'runtime')


@case('references', timeout=200)
def references():
    """to the module and its namespace, from anywhere"""
    src = """
import sys
class Box: pass
def fill(M):
    M.b = Box(); M.b.mod = M; M.b.ns = vars(M); M.l = [M, vars(M), (M, {"k": M})]; M.t = (M.l, vars(M)); M.d = {"ns": vars(M)}
    M.f = lambda m=M, n=vars(M): (m, n)
    M.shared = [1]; M.s1 = {"s": M.shared}; M.s2 = (M.shared, M.s1); M.Box.m = M; M.Box.shared = M.shared
    M.cyc = []; M.cyc.append(M.cyc); M.b.b = M.b
    import functools; M.part = functools.partial(M.f, vars(M), k=M)
    M.bound = vars(M).get
"""
    test = """
g = vars(M); T = dict(b=lambda: M.b.mod is M and M.b.ns is g and type(M.b) is M.Box, l=lambda: M.l[0] is M and M.l[1] is g and M.l[2][0] is M and M.l[2][1]["k"] is M,
 t=lambda: M.t[0] is M.l and M.t[1] is g, d=lambda: M.d["ns"] is g, f=lambda: M.f()[0] is M and M.f()[1] is g, shared=lambda: M.s1["s"] is M.shared and M.s2[0] is M.shared and M.s2[1] is M.s1 and M.shared == [1],
 Box=lambda: M.Box.m is M and M.Box.shared is M.shared, cyc=lambda: M.cyc[0] is M.cyc and len(M.cyc) == 1 and M.b.b is M.b, part=lambda: M.part.args[0] is g and M.part.keywords["k"] is M and M.part.func is M.f, bound=lambda: M.bound.__self__ is g)
print([k for k, c in T.items() if not c()])
"""
    open('dmod.py', 'w').write(src)
    there_and_back('import dmod\ndmod.fill(dmod)\ndill.dump_module("s.pkl", dmod, $REF)', 'M = dill.load_module("s.pkl")', test, 'a module')
    there_and_back('exec(compile(%r, "m", "exec"), globals())\nimport __main__ as mm; fill(mm); del mm\ndill.dump_module("s.pkl", $REF)' % src, 'dill.load_module("s.pkl"); import __main__ as M', test, 'main')
    there_and_back('M = types.ModuleType("rmod"); exec(compile(%r, "m", "exec"), vars(M)); M.fill(M)\ndill.dump_module("s.pkl", M, $REF)' % src, 'M = dill.load_module("s.pkl")', test, 'runtime')


@case('in the same process, and in memory', timeout=100)
def same_process():
    src = 'x = [1]\ndef f(): return x\nclass A:\n    def m(self): return f()\na = A()\n'
    open('emod.py', 'w').write(src)
    code = """
import dill, io, types, sys, warnings; warnings.simplefilter('ignore')
def test(M, save):
    import math; M.imp = math.sin; M.me = M; M.ns = vars(M)
    for ref in (False, True):
        for byref in (False, True):
            for recurse in (False, True):
                dill.settings.update(byref=byref, recurse=recurse)
                x, f = M.x, M.f; b = io.BytesIO(); keys = list(vars(M)); dill.dump_module(b, M, refimported=ref)
                assert list(vars(M)) == keys and M.x is x and M.f is f and M.me is M, 'saving changed the module'
                assert dill.settings['byref'] is byref and dill.settings['recurse'] is recurse
                x.append(2); M.y = 5; M.x = 0; b.seek(0); dill.load_module(b, M)
                assert M.x == [1] and M.y == 5 and M.f() is M.x and M.f.__globals__ is vars(M) and M.a.m() is M.x and M.imp is math.sin and M.me is M and M.ns is vars(M), (ref, byref, recurse)
                del M.y
import emod; test(emod, 1)
R = types.ModuleType('rmod'); exec(%r, vars(R)); test(R, 1); del R, emod
import __main__; exec(%r); test(__main__, 1)
print('ok')
""" % (src, src)
    eq(run(code, 'in memory'), 'ok', 'in memory')
