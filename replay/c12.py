from oracle import *
import random, pickle, abc, enum, types, collections

PRE = '''
import pickle, sys
STOCK = dict(pickle._Pickler.dispatch)
import dill, dill._dill as D
P, DT, COPY = pickle._Pickler.dispatch, dill.Pickler.dispatch, D.pickle_dispatch_copy
def off(stock): return dict(stock)
'''


@case()
def tables_at_import():
    out = child(PRE + '''
assert COPY == STOCK and COPY is not P
assert all(COPY[k] is STOCK[k] for k in STOCK)
assert type(DT) is D.MetaCatchingDict and DT is not P
assert all(k in DT for k in STOCK)
# importing extends pickle's table
assert all(P[k] is DT[k] for k in DT) and set(P) == set(DT) | set(STOCK)
print('ok')
''')
    check(out.strip() == 'ok', 'tables')


@case()
def extend_on_off():
    out = child(PRE + '''
class A: pass
class B: pass
class Cc: pass
class E: pass
def fa(p, o): pass
def fb(p, o): pass
P[A] = fa                      # someone else's function in pickle's table
dill.register(B)(fb)           # a user's function in dill's table
def core(p, o): pass
core.__module__ = 'dill._dill'
def near(p, o): pass
near.__module__ = 'dill._dill2'
dill.pickle(Cc, core)
dill.pickle(E, near)
names = list(STOCK)
before = dict(DT)
for rnd in range(4):
    for use in ((), (True,), (1,), ('yes',)):
        r = dill.extend(*use)
        assert r is None
        assert all(P[k] is DT[k] for k in DT), 'every dill entry'
        assert P[A] is fa and dict(DT) == before
        assert set(P) == set(DT) | set(STOCK) | {A}
    for use in (False, 0, None, ''):
        r = dill.extend(use)
        assert r is None
        for k, f in P.items(): assert f.__module__ != 'dill._dill', (k, f)
        for k, f in STOCK.items(): assert P[k] is f, k
        assert P[A] is fa and P[B] is fb and Cc not in P and P[E] is near
        assert set(P) == set(STOCK) | {A, B, E}, set(P) ^ set(STOCK)
        assert dict(DT) == before and COPY == STOCK
dill.extend(use_dill=True); assert P[Cc] is core
dill.extend(use_dill=False); assert Cc not in P
# a type pickle knows, taken over by somebody else: left alone
def mine(p, o): pass
dill.extend(False); P[dict] = mine; dill.extend(False)
assert P[dict] is mine
dill.extend(True); assert P[dict] is DT[dict]
dill.extend(False); assert P[dict] is STOCK[dict]
# a removed entry comes back only by extend
del P[list]; dill.extend(False); assert list not in P
dill.extend(True); assert P[list] is DT[list]
dill.extend(False); assert P[list] is STOCK[list]
print('ok')
''')
    check(out.strip() == 'ok', 'extend')


@case()
def stock_pickle_after_extend():
    out = child(PRE + '''
import io
class A: pass
lam = lambda x: x
def stock(o):
    f = io.BytesIO(); pickle._Pickler(f).dump(o); return f.getvalue()
stock(lam); stock({'a': 1})
dill.extend(False)
ok = 0
for o in (lam, sys, (i for i in ())):
    try: stock(o)
    except (pickle.PicklingError, TypeError, AttributeError): ok += 1
assert ok == 3, ok
for o in ({'a': 1}, [1, {2}], frozenset('ab'), len, int, 1.5, b'x', bytearray(b'y'), ((), None, True)):
    assert pickle.loads(stock(o)) == o
    assert dill.loads(dill.dumps(o)) == o
assert dill.loads(dill.dumps(lam))(3) == 3
dill.extend(True)
assert pickle.loads(stock(lam))(4) == 4
print('ok')
''')
    check(out.strip() == 'ok', 'stock')


@case()
def registering():
    import dill, dill._dill as D
    DT = dill.Pickler.dispatch
    P = D.StockPickler.dispatch
    class M(type): pass
    class X(metaclass=M): pass
    class L(list): pass
    def f(p, o): p.save_reduce(str, ('f',), obj=o)
    def g(p, o): p.save_reduce(str, ('g',), obj=o)
    class Callable:
        def __call__(self, p, o): p.save_reduce(str, ('c',), obj=o)
    c = Callable()
    import functools
    part = functools.partial(f)
    for t in (M, X, L, int, complex, abc.ABCMeta, type(None), collections.OrderedDict, type):
        for fn in (f, g, c, part):
            before, pb = dict(DT), dict(P)
            deco = dill.register(t)
            check(dict(DT) == before, 'nothing yet')
            check(deco(fn) is fn, 'returned unchanged')
            want = dict(before); want[t] = fn
            check(dict(DT) == want and DT[t] is fn and dict(P) == pb, 'only that type')
            before = dict(DT)
            check(dill.pickle(t, g) is None)
            want = dict(before); want[t] = g
            check(dict(DT) == want and DT[t] is g and dict(P) == pb, 'only that type')
        if t is L or t is complex:
            check(dill.loads(dill.dumps(t())) == 'g', 'used')
    # one decorator, several functions; several types, one function
    deco = dill.register(L); deco(f); deco(g); check(DT[L] is g)
    check(f.__dict__ == {} and f.__name__ == 'f', 'function left alone')


@case()
def lookups():
    import dill, dill._dill as D
    DT = dill.Pickler.dispatch
    save_type = DT[type]
    class M(type): pass
    class M2(M): pass
    class AM(abc.ABCMeta): pass
    class X(metaclass=M): pass
    class Y: pass
    metas = [M, M2, AM, enum.EnumMeta, type(typing_meta())]
    others = [X, Y, collections.UserDict, array_type(), type(iter([])), Exception]
    for fn in ('', 'r'):
        for t in metas:
            n = len(DT); d = object()
            check(DT[t] is save_type and DT.get(t) is save_type and DT.get(t, None) is save_type and DT.get(t, d) is save_type and DT.get(t, default=d) is save_type, 'metaclass')
            check(len(DT) == n and t not in DT, 'nothing registered')
        for t in others:
            n = len(DT); d = object()
            check(DT.get(t) is None and DT.get(t, d) is d and DT.get(t, default=d) is d, 'default')
            raises(KeyError, lambda: DT[t])
            check(len(DT) == n and t not in DT)
    for t in list(DT):
        check(DT.get(t) is dict.get(DT, t) and DT[t] is dict.get(DT, t) and DT.get(t, 3) is dict.get(DT, t), 'registered')
    # a metaclass that is registered is not overridden
    def f(p, o): p.save_reduce(str, ('meta',), obj=o)
    dill.register(M)(f)
    check(DT[M] is f and DT.get(M) is f and DT[M2] is save_type and DT.get(M2) is save_type)
    eq(dill.loads(dill.dumps(X)), 'meta')
    # classes of unregistered metaclasses are saved as classes
    class Z(metaclass=M2): v = 3
    del_loc = dill.loads(dill.dumps(Z))
    check(isinstance(del_loc, type) and del_loc.__name__ == 'Z' and del_loc.v == 3 and type(del_loc).__name__ == 'M2')


def typing_meta():
    import typing
    class P(typing.Protocol): pass
    return P
def array_type():
    import array
    return array.array


@case()
def histories():
    """random interleavings of register, pickle and extend against a direct model of the tables"""
    import dill, dill._dill as D
    DT, P, COPY = dill.Pickler.dispatch, D.StockPickler.dispatch, D.pickle_dispatch_copy
    rnd = random.Random(Counter.seed)
    types_ = [type('T%d' % i, (), {}) for i in range(5)] + [dict, list, type, complex, types.ModuleType]
    def mk(i, mod):
        def f(p, o): pass
        f.__module__ = mod; return f
    fns = [mk(i, m) for i, m in enumerate(['dill._dill', 'dill', 'x', 'dill._dill', '__main__', None, 'pickle', 'dill._dil'])]
    d, p, c = dict(DT), dict(P), dict(COPY)
    for step in range(3000 if Counter.tier == 'thorough' else 600):
        k = rnd.randrange(6)
        t, f = rnd.choice(types_), rnd.choice(fns)
        if k == 0: dill.register(t)(f); d[t] = f
        elif k == 1: dill.pickle(t, f); d[t] = f
        elif k == 2: dill.extend(True); p.update(d)
        elif k == 3:
            dill.extend(False)
            for key, fn in list(p.items()):
                if fn.__module__ == 'dill._dill':
                    if key in c: p[key] = c[key]
                    else: del p[key]
        elif k == 4: P[t] = f; p[t] = f
        else: P.pop(t, None); p.pop(t, None)
        check(dict(DT) == d and dict(P) == p and dict(COPY) == c, 'step %d op %d' % (step, k))
