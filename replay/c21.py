from oracle import *
import dill, warnings, random, types, threading, collections, pickle, socket, sys
import dill._dill as D
from dill import detect
from dill.detect import badobjects, badtypes, errors, baditems
import numpy as np


class PE(dill.PicklingError): pass
class TE(TypeError): pass
class Other(Exception): pass
class Base(BaseException): pass
TRAPPED = (TypeError, AssertionError, NotImplementedError, dill.PicklingError, dill.UnpicklingError, PE, TE, pickle.PicklingError, pickle.UnpicklingError)
NOT = (ValueError, KeyError, IndexError, AttributeError, OSError, RuntimeError, RecursionError, ZeroDivisionError, LookupError, EOFError, MemoryError, Other, StopIteration, UnicodeError, ReferenceError, pickle.PickleError, Exception, ImportError, NameError)
BASE = (KeyboardInterrupt, SystemExit, GeneratorExit, Base)
ARGS = [dict(exact=e, safe=s) for e in (False, True) for s in (False, True)]
boom = None
def explode(*a): raise boom('x')


class OnSave:
    """raises when saved"""
    def __reduce__(self): raise boom('x')
class OnLoad:
    """raises when loaded"""
    def __reduce__(self): return explode, ()
class Becomes:
    """its copy is anything"""
    def __init__(self, what, eq=None): self.what, self.eq = what, eq
    def __reduce__(self): return _make, (self.what,)
    def __eq__(self, other):
        if self.eq is None: return self is other
        return self.eq(self, other)
    __hash__ = None
def _make(what): return what() if callable(what) else what


def verdict(obj, want, **k):
    old, lst = warnings.filters[:], warnings.filters
    r = dill.pickles(obj, **k)
    check(warnings.filters is lst and warnings.filters == old, 'the warning filters are as before')
    check(isinstance(r, (bool, np.bool_)), 'the verdict is a bool: %r' % (r,))
    check(bool(r) is want, '%r %r: %r, expected %r' % (obj, k, r, want))


@case('errors of the copy')
def _():
    global boom
    for cls in (OnSave, OnLoad):
        for depth in range(3):
            o = cls()
            for _ in range(depth): o = [{'k': o}]
            for k in ARGS:
                for boom in TRAPPED: verdict(o, False, **k)
                for boom in NOT:
                    if k['safe']: verdict(o, False, **k)
                    else:
                        old, lst = warnings.filters[:], warnings.filters
                        raises(boom, dill.pickles, o, **k); check(warnings.filters is lst and lst == old, 'filters')
                for boom in BASE:
                    old, lst = warnings.filters[:], warnings.filters
                    raises(boom, dill.pickles, o, **k); check(warnings.filters is lst and lst == old, 'filters')


class Same: pass
def same_type(v):
    x = Becomes(lambda: None); return x


@case('verdicts')
def _():
    ambiguous = lambda: np.arange(3) == np.arange(3)
    T = [(True, True), (1, True), ('x', True), (np.True_, True), (np.array(True), True), ([0], True), (False, False), (0, False), ('', False), (None, False), (np.False_, False), ([], False), (NotImplemented, None)]
    for res, truth in T:
        f = lambda a, b: res
        o = Becomes(5, f)                                # another type
        if truth is None: truth = False
        for k in ARGS: verdict(o, truth, **k)
        class Cp(Becomes):
            def __reduce__(self): return type(self), (0, self.eq)
        if res is NotImplemented: continue
        o = Becomes(lambda: Becomes(0, f), f)            # the same type
        for k in ARGS: verdict(o, truth or not k['exact'], **k)
    class Sparse:
        def __init__(self, v): self.v = v
        def toarray(self): return np.array(self.v)
        def __bool__(self): raise ValueError('ambiguous')
    for v, truth in (([True, True], True), ([True, False], False), ([], True)):
        for k in ARGS:
            verdict(Becomes(5, lambda a, b: Sparse(v)), truth, **k)
            o = Becomes(lambda: Becomes(0, lambda a, b: Sparse(v)), lambda a, b: Sparse(v)); verdict(o, truth or not k['exact'], **k)
    # ordinary objects
    def g(): yield 1
    good = [1, 'a', None, [1, [2]], {'a': {1, 2}}, lambda: 0, g, int, type(None), range(4), (1, 'x'), b'b', 1.5, frozenset([1]), slice(1), dill, collections.OrderedDict(a=1), np.arange(5), np.zeros((2, 3)), np.float64(2)]
    for o in good:
        for k in ARGS:
            if not k['exact']: verdict(o, True, **k)
    for o in (1, 'a', None, [1, [2]], {'a': {1, 2}}, int, range(4), (1, 'x'), 1.5, dill): verdict(o, True, exact=True); verdict(o, True, exact=True, safe=True)
    class Query:            # all() of its own, which takes an argument (or fails in another way)
        def __init__(self, e=None): self.e = e
        def all(self, *a): raise (self.e or TypeError)('no')
        def __eq__(self, o): return type(o).__name__ == 'Query'
        __hash__ = None
    for e in (None, AttributeError, TypeError): verdict(Query(e), True, exact=True); verdict(Query(e), True)
    for o in (lambda: 0, object(), [object()], float('nan')): verdict(o, False, exact=True); verdict(o, True)
    for o in (g(), [g()], {'a': g()}, sys._getframe(), (i for i in ())):
        for k in ARGS: verdict(o, False, **k)


@case('ambiguous comparisons')
def _():
    for o in ([np.arange(3)], {'a': np.arange(3)}, (1, np.zeros((2, 2))), [[np.arange(2)], 'x'], {'k': [np.arange(4)]}, collections.OrderedDict(a=np.arange(9))):
        for safe in (False, True): verdict(o, True, safe=safe)
    class Amb:
        def __bool__(self): raise ValueError('ambiguous')
    for k in ARGS:
        verdict(Becomes(5, lambda a, b: Amb()), False, **k)
        verdict(Becomes(lambda: Becomes(0, lambda a, b: Amb()), lambda a, b: Amb()), not k['exact'], **k)
    class G:
        def __reduce__(self): raise TypeError
    bad = G()
    check(badobjects([np.arange(3)]) is None); check(badtypes([np.arange(3)]) is None); check(errors([np.arange(3)]) is None)
    r = baditems([1, [np.arange(3)], bad, np.arange(2)]); check(len(r) == 1 and r[0] is bad, 'baditems')


class Arr:
    """an object with all()"""
    def __init__(self, a, copy=None): self.a, self.copy = a, copy
    def all(self): return self.a
    def __reduce__(self): return Arr, (self.copy,)
    def __eq__(self, o): raise KeyError('not compared')
@case('arrays')
def _():
    for a in (True, False, 1, 0, 'x'):
        for b in (True, False, 1, 0, 'y'):
            for k in ARGS: verdict(Arr(a, b), bool(a == b) or not k['exact'], **k)
    for a in (np.arange(3), np.ones(3), np.zeros(0), np.ones((2, 2)), np.array(['a', 'b']), np.array([1, None], dtype=object)):
        for k in ARGS:
            if not k['exact']: verdict(a, True, **k)
            else: dill.pickles(a, **k)


@case('warning filters')
def _():
    import re
    class Warns:
        def __init__(self, cls=None): self.cls = cls
        def __reduce__(self): return Warns, (self.cls,)
        def __eq__(self, o): warnings.warn('compared', self.cls or UserWarning); return True
    class Raises(Warns):
        def __reduce__(self): return Raises, (self.cls,)
        def __eq__(self, o): raise self.cls('x')
    sets = [lambda: None, lambda: warnings.simplefilter('error'), lambda: warnings.simplefilter('ignore'), lambda: warnings.resetwarnings(), lambda: warnings.filterwarnings('always', 'x.*', DeprecationWarning, 'mod', 7),
            lambda: warnings.simplefilter('once', append=True), lambda: warnings.filters.clear(), lambda: (warnings.simplefilter('default'), warnings.filterwarnings('error', category=UserWarning))]
    for st in sets:
        with warnings.catch_warnings():
            st()
            for o in (1, [1], Warns(), Warns(DeprecationWarning), Warns(FutureWarning), lambda: 0, np.arange(3), (i for i in ()), float('nan'), [np.arange(3)]):
                for k in ARGS:
                    old, lst, show = list(warnings.filters), warnings.filters, warnings.showwarning
                    r = dill.pickles(o, **k)
                    check(warnings.filters is lst and list(warnings.filters) == old and warnings.showwarning is show, 'after pickles(%r)' % o)
                    if isinstance(o, Warns): check(r is True, 'warnings are not errors')
                    for f in (badobjects, badtypes, errors):
                        f(o, 0, **k); check(warnings.filters is lst and list(warnings.filters) == old, f.__name__)
            for exc in (TypeError, AttributeError, ValueError, KeyError, KeyboardInterrupt, ZeroDivisionError, Other):
                for k in ARGS:
                    old, lst = list(warnings.filters), warnings.filters
                    try: dill.pickles(Raises(exc), **k)
                    except BaseException as e: check(isinstance(e, exc), repr(e))
                    check(warnings.filters is lst and list(warnings.filters) == old, 'after a comparison raising %s' % exc.__name__)
    # a warning that is an error, outside
    with warnings.catch_warnings():
        warnings.simplefilter('error'); dill.pickles(Warns())
        raises(UserWarning, warnings.warn, 'still an error')


class Meta(type):
    """types that are equal to nothing"""
    def __eq__(cls, other): return False
    __hash__ = type.__hash__
@case('types')
def _():
    def make():
        class L: pass
        return L
    # a copy whose type has the same name
    L1, L2 = make(), make()
    keep = {}
    class Swap:
        def __reduce__(self): return _make, (lambda: None,)
    x = L1()
    verdict(x, True); verdict(x, False, exact=True)
    check(errors(x) is None and badobjects(x) is None and badtypes(x) is None, 'instances of a local class')
    e = errors(x, exact=True); check(isinstance(e, AssertionError), 'exact')
    class deque:
        def __reduce__(self): return collections.deque, ()
    class Becomes2(Becomes): pass
    Becomes2.__name__ = Becomes2.__qualname__ = 'int'
    for o in (deque(), Becomes2(5)):
        verdict(o, False); check(errors(o) is not None and badobjects(o) is o and badtypes(o) is type(o), 'a copy of an unrelated type of the same name')
    o = Becomes(5); verdict(o, False); check(isinstance(errors(o), AssertionError) and badobjects(o) is o and badtypes(o) is Becomes)
    o = Becomes(5, lambda a, b: True); verdict(o, True); check(errors(o) is None, 'equal to its copy')


def attrs_of(o, bad, depth, **k):
    """the attributes that fail, by definition"""
    if not depth: return None
    r = {}
    for a in dir(o):
        v = getattr(o, a)
        if not dill.pickles(v, **k): r[a] = attrs_of(v, bad, depth - 1, **k)
    return r


class Holder: pass
def keysof(d): return {a: keysof(v) if isinstance(v, dict) else None for a, v in d.items()}


def structures(rng, n):
    def gen(): yield
    class G:
        def __init__(self): pass
        def __reduce__(self): raise boom0('no')
        def __eq__(self, o): return True
        __hash__ = None
    class Host(G):
        def __eq__(self, o): raise ValueError('compared')
    for _ in range(n):
        hs = [Holder() for _ in range(4)]
        for i, h in enumerate(hs):
            for j in range(rng.randrange(4)):
                setattr(h, 'a%d' % j, rng.choice([1, 'x', None, gen(), G(), Host(), np.arange(3), [1, gen()], *hs[i + 1:]]))
        yield hs[0]
boom0 = TypeError


@case('agreement', timeout=100)
def _():
    rng = random.Random(Counter.seed)
    def gen(): yield
    fixed = [1, None, 'x', gen(), [gen()], lambda: 0, int, Holder(), threading.Thread(target=gen), np.arange(3), [np.arange(3)], Becomes(5), Becomes(5, lambda a, b: True), float('nan'), object(), dill, {'a': gen()}, Arr(True, False), sys._getframe()]
    for o in fixed + list(structures(rng, 40 if Counter.tier == 'quick' else 400)):
        for k in ARGS + [{}]:
            ok = bool(dill.pickles(o, **k))
            b, t, e = badobjects(o, 0, **k), badtypes(o, 0, **k), errors(o, 0, **k)
            check((b is None) is (ok or o is None) and (ok or b is o), 'badobjects(%r, %r): %r' % (o, k, b))
            check((t is None) is ok and (ok or t is type(o)), 'badtypes(%r, %r): %r' % (o, k, t))
            check((e is None) is ok and (ok or isinstance(e, Exception)), 'errors(%r, %r): %r' % (o, k, e))


@case('attributes', timeout=150)
def _():
    rng = random.Random(Counter.seed)
    def want(o, depth, leaf, k):
        if not depth: return leaf(o)
        r = {}
        for a in dir(o):
            try: v = getattr(o, a)
            except Exception as e: r[a] = e; continue
            if not dill.pickles(v, **k): r[a] = want(v, depth - 1, leaf, k)
        return r
    def same(got, w, what, o=None):
        check(type(got) is type(w) or isinstance(w, type), '%s: %r, expected %r' % (what, got, w))
        if isinstance(w, dict):
            check(list(got) == list(w), '%s: %r, expected %r' % (what, list(got), list(w)))
            for a in w: same(got[a], w[a], what + '.' + a)
        elif isinstance(w, type): check(got is w, '%s: %r' % (what, got))
        elif not isinstance(w, (types.MethodWrapperType, types.BuiltinMethodType, Exception, types.MethodType)): check(got is w, '%s: %r, expected %r' % (what, got, w))
    for o in structures(rng, 12 if Counter.tier == 'quick' else 120):
        for k in (dict(), dict(safe=True)):
            for depth in (1, 2):
                same(badobjects(o, depth, **k), want(o, depth, lambda v: badobjects(v, 0, **k), k), 'badobjects %d' % depth)
                same(badtypes(o, depth, **k), want(o, depth, lambda v: badtypes(v, 0, **k), k), 'badtypes %d' % depth)
                same(errors(o, depth, **k), want(o, depth, lambda v: errors(v, 0, **k), k), 'errors %d' % depth)
    # an attribute that cannot be read is an error of that attribute
    class P:
        @property
        def p(self): raise boomp('read')
        def q(self): return 1
    for boomp in (ValueError, AttributeError, TypeError, KeyError):
        r = errors(P(), 1); check(isinstance(r.get('p'), boomp), 'the error of the attribute: %r' % r)
    h = Holder(); h.g = (i for i in ()); h.ok = 5; h.h = Holder(); h.h.bad = (i for i in ()); h.h.fine = [1]
    r = badobjects(h, 1); check({a for a in r if a[:2] != '__'} == {'g', 'h'} and r['g'] is h.g and r['h'] is h.h, 'badobjects')
    r = badobjects(h, 2); check({a for a in r['h'] if a[:2] != '__'} == {'bad'} and r['h']['bad'] is h.h.bad and isinstance(r['g'], dict), 'badobjects')
    r = badtypes(h, 1); check(r['g'] is types.GeneratorType and r['h'] is Holder, 'badtypes')
    r = errors(h, 1); check(isinstance(r['g'], TypeError) and isinstance(r['h'], TypeError) and 'ok' not in r, 'errors')
    r = errors(h, 2); check(isinstance(r['h']['bad'], TypeError) and 'fine' not in r['h'], 'errors')


@case('items')
def _():
    def gen(): yield
    class Eq:
        def __reduce__(self): raise TypeError
        def __eq__(self, o): return True
        __hash__ = object.__hash__
    class Hostile(Eq):
        def __eq__(self, o): raise ValueError('compared')
        __hash__ = object.__hash__
    class EqNone:
        def __eq__(self, o): return o is None
        def __reduce__(self): raise TypeError
        __hash__ = None
    class Fine:
        def __eq__(self, o): return True
        __hash__ = object.__hash__
    def verify(obj, items, **k):
        want = []
        for i in items:
            if not dill.pickles(i, **k) and not any(i is j for j in want): want.append(i)
        got = baditems(obj, **k); tick()
        check(type(got) is list and len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'baditems(%r): %r, expected %r' % (obj, got, want))
    g1, g2 = gen(), gen()
    pool = [1, 'x', None, g1, g2, Eq(), Eq(), Hostile(), EqNone(), Fine(), np.arange(3), np.zeros((2, 2)), [np.arange(2)], [g1], {'a': g2}, True, 0, float('nan'), (), Hostile(), np.array([g1], dtype=object)]
    rng = random.Random(Counter.seed)
    for n in range(150 if Counter.tier == 'quick' else 1500):
        its = [rng.choice(pool) for _ in range(rng.randrange(7))]
        for k in (dict(), dict(safe=True)) + ((dict(exact=True),) if n % 5 == 0 else ()):
            verify(list(its), its, **k); verify(tuple(its), its, **k); verify(iter(its), its, **k); verify((i for i in its), its, **k)
            d = dict(enumerate(its)); verify(d, its, **k); verify(collections.OrderedDict(d), its, **k); verify(collections.UserDict(d), its, **k); verify(d.values(), its, **k)
            verify(collections.deque(its), its, **k)
    class CallValues(list):
        def values(self): return [g1, 1, g2]
    for its in ([1, g1], [], [g2, g2]): verify(CallValues(its), [g1, 1, g2])
    verify({g1, 1, g2}, list({g1, 1, g2})); verify('abc', 'abc'); verify(range(3), range(3)); verify({}, []); verify({'a': None, 'b': g1}, [g1])
    # not iterable
    for o in (5, None, 1.5, len, object()): eq(baditems(o), [])
    f = sys._getframe(); r = baditems(f); check(len(r) == 1 and r[0] is f, 'not iterable')
    e = EqNone(); r = baditems(e); check(len(r) == 1 and r[0] is e, 'not iterable')


@case('an attribute named values')
def _():
    g = (i for i in ())
    class WithValues(list): values = [7]
    class NoValues(list): values = None
    class Odd(list): values = np.arange(3)
    class P(list):
        @property
        def values(self): return 'abc'
    for cls in (WithValues, NoValues, Odd, P):
        for its in ([1, g], [], [g, g, 2]):
            r = baditems(cls(its)); check(len(r) == (g in its) and all(x is g for x in r), '%s: %r' % (cls.__name__, r))


@case('errors that come through')
def _():
    """what pickles lets through is let through, except that errors returns it for the object itself"""
    global boom
    for boom in NOT:
        o = OnSave()
        for f in (badobjects, badtypes): raises(boom, f, o)
        e = errors(o); check(type(e) is boom, 'errors returns it')
        raises(boom, baditems, [o])
        for f in (badobjects, badtypes, errors): f(o, safe=True)
        check(baditems([1, o], safe=True)[0] is o)
    for boom in BASE:
        for f in (badobjects, badtypes, errors): raises(boom, f, OnSave()); raises(boom, f, OnSave(), safe=True)


@case('settings are passed on')
def _():
    global boom
    seen = []
    real = D.copy
    class R:
        def __reduce_ex__(self, p): seen.append(p); return int, ()
    for p in range(6): dill.pickles(R(), protocol=p); eq(seen[-1], p, 'protocol')
    import __main__
    def f(): return 1
    for kw in ({'byref': True}, {'recurse': True}, {'ignore': True}, {'fmode': 1}, {}): verdict(f, True, **kw)
    opt = child('''
import dill
from dill import detect
def gen(): yield
class B:
    def __reduce__(self): return int, ()
assert detect.errors(gen()) is not None and detect.errors(5) is None
e = detect.errors(B()); import sys
sys.exit(0 if isinstance(e, AssertionError) and detect.badobjects(B()) is not None else 1)
''')
    import subprocess
    code = "import dill\nfrom dill import detect\nclass B:\n    def __reduce__(self): return int, ()\nb = B()\nimport sys\nsys.exit(0 if isinstance(detect.errors(b), AssertionError) and detect.badobjects(b) is b and not dill.pickles(b) and detect.errors(1, exact=True) is None else 1)"
    for opt in ([], ['-O'], ['-OO']): eq(subprocess.run([sys.executable] + opt + ['-c', code]).returncode, 0, 'with %r' % opt)
