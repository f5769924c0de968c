from oracle import *
import dill, copy, pickle, collections, operator, types, sys, functools
import dill._dill as D, dill._shims as S
from dill._shims import Reduce, Getattr, register_shim, move_to

PROTOS = range(0, pickle.HIGHEST_PROTOCOL + 1)


class Obj:
    def __init__(self, *a, **k): self.a, self.k = a, k
    def __call__(self, *a, **k): return ('called', self.a, a, k)
    def __eq__(self, o): return type(o).__name__ == 'Obj' and o.__dict__ == self.__dict__
class Lst(list): pass
class Dct(dict): pass


@case()
def reduction_round_trip():
    reds = [(int, ('7',)), (complex, (1, 2)), (dict, ()), (list, ([1, 2],)), (Obj, (1, 'x')), (Obj, (), {'a': (), 'k': {'z': 1}}),
            (Lst, (), None, iter([1, 2, 3])), (Dct, (), None, None, iter([('a', 1)])), (operator.add, (2, 3)), (functools.partial, (int,)),
            (Lst, (), {'attr': 1}, iter([1, [2]]), None)]
    def expect(red):
        o = red[0](*red[1])
        if len(red) > 2 and red[2]: o.__dict__.update(red[2])
        return o
    def again(red): return tuple(list(x) if hasattr(x, '__next__') else x for x in red)
    for red in reds:
        red = again(red)
        for cb in (None, False, True):
            for proto in PROTOS:
                r2 = tuple(iter(x) if i in (3, 4) and x is not None else x for i, x in enumerate(red))
                r = Reduce(*r2) if cb is None else Reduce(*r2, is_callable=cb)
                check(r.reduction == r2 and r.__reduce__() is r.reduction and r.__reduce_ex__(proto) is r.reduction, 'exactly the reduction')
                check(callable(r) == bool(cb), 'callable as asked')
                got = dill.loads(dill.dumps(r, protocol=proto))
                want = expect(red)
                if len(red) > 3 and red[3]: want.extend(red[3])
                if len(red) > 4 and red[4]: want.update(dict(red[4]))
                if isinstance(want, functools.partial): check(got.func is want.func)
                else: check(type(got).__name__ == type(want).__name__ and got == want, 'loads as the result: %r' % (got,))
                if hasattr(want, '__dict__') and not isinstance(want, functools.partial): check(got.__dict__ == want.__dict__, 'state')


@case()
def sharing_and_nesting():
    r = Reduce(list, ((1, 2),))
    for proto in PROTOS:
        a, b, c = dill.loads(dill.dumps([r, r, Reduce(tuple, ([r],))], protocol=proto))
        check(a is b and c[0] is a and a == [1, 2], 'one object')
        f = Reduce(operator.attrgetter, ('upper',), is_callable=True)
        check(dill.loads(dill.dumps(Reduce(f, ('abc',)), protocol=proto))() == 'ABC', 'callable shim as function')


@case()
def calling():
    calls = []
    def mk(*a): calls.append(a); return Obj(*a)
    for fa in ((), (1,), (1, [2]), ('x', None, 3)):
        for a in ((), (1,), (1, 2, 3)):
            for k in ({}, {'x': 1}, {'func': 2, 'args': 3}):
                calls.clear()
                s = Reduce(mk, fa, is_callable=True)
                eq(s(*a, **k), ('called', fa, a, k), 'call')
                check(calls == [fa], 'evaluated once')
    check(Getattr(collections, 'OrderedDict', dict)([(1, 2)]) == collections.OrderedDict([(1, 2)]), 'Getattr call')
    check(Getattr(collections, 'no_such', dict)([(1, 2)]) == {1: 2}, 'Getattr default call')
    raises(TypeError, lambda: Getattr(collections, 'OrderedDict')())
    raises(TypeError, lambda: Reduce(list, ())())


@case()
def getattr_shims():
    NO = Getattr.NO_DEFAULT
    for proto in PROTOS:
        def L(x): return dill.loads(dill.dumps(x, protocol=proto))
        check(L(Getattr(collections, 'OrderedDict')) is collections.OrderedDict, 'attribute')
        check(L(Getattr(collections, 'OrderedDict', None)) is collections.OrderedDict, 'attribute over default')
        for d in (None, 0, False, '', 'x', (), int):
            check(L(Getattr(collections, 'spam', d)) == d, 'default %r' % (d,))
            check(type(L(Getattr(collections, 'spam', d))) is type(d))
            check(callable(Getattr(collections, 'spam', d)) == callable(d), 'callable as the default')
        raises(AttributeError, L, Getattr(collections, 'spam'))
        raises(AttributeError, L, Getattr(collections, 'spam', NO))
        check(L(Getattr(collections, 'spam', Getattr(collections, 'deque', None))) is collections.deque, 'chained')
        check(L(Getattr(collections, 'spam', Getattr(collections, 'spam2', 5))) == 5, 'chained default')
    check(Getattr(collections, 'x').reduction == (getattr, (collections, 'x')), 'reduction')
    check(Getattr(collections, 'x', 3).reduction == (getattr, (collections, 'x', 3)), 'reduction')


@case()
def registering():
    NO = Getattr.NO_DEFAULT
    def c26_fn(): return 'hi'
    before = set(D.__dict__)
    r = register_shim('c26_absent', len)
    check(set(D.__dict__) == before and callable(r), 'nothing is published')
    check(dill.loads(dill.dumps(r)) is len, 'default')
    raises(AttributeError, lambda: dill.loads(dill.dumps(register_shim('c26_absent', NO))))
    check(dill.loads(dill.dumps(register_shim('c26_absent', None))) is None, 'default None')
    S.__dict__['c26_fn'] = c26_fn
    r = register_shim('c26_fn', None)
    check(D.c26_fn is c26_fn and c26_fn.__module__ == 'dill._dill', 'published')
    c26_fn.__qualname__ = 'c26_fn'
    check(dill.loads(dill.dumps(r)) is c26_fn, 'found')
    check(dill.loads(dill.dumps(register_shim('_import_module', None))) is D._import_module, 'what the core module has')
    mod = types.ModuleType('c26_mod')
    def f(): pass
    check(move_to(mod)(f) is f and mod.f is f and f.__module__ == 'c26_mod', 'move_to')
    check(move_to(mod, 'other')(f) is f and mod.other is f, 'move_to a name')
    check({k for k in mod.__dict__ if not k.startswith('__')} == {'f', 'other'}, 'nothing else')


@case()
def copies():
    D.C26_SENT = D.Sentinel('C26_SENT', 'dill._dill')
    for x in (Reduce(list, ()), Reduce(list, (), is_callable=True), Getattr(collections, 'x', None), D.C26_SENT, Getattr.NO_DEFAULT, D._CELL_EMPTY):
        check(copy.copy(x) is x and copy.deepcopy(x) is x, 'copy is itself')
        l = [x, {'k': x}]
        m = copy.deepcopy(l)
        check(m is not l and m[0] is x and m[1]['k'] is x, 'inside containers')


@case()
def sentinels():
    D.C26_SENT = D.Sentinel('C26_SENT', 'dill._dill')
    s = D.Sentinel('C26_HERE'); globals()['C26_HERE'] = s
    eq(s.__module__, __name__, 'module of the caller'); eq(s.name, 'C26_HERE')
    for proto in PROTOS:
        for x in (D.C26_SENT, D._CELL_EMPTY):
            d = dill.dumps([x, x], protocol=proto)
            got = dill.loads(d)
            check(got[0] is x and got[1] is x, 'the constant of that name')
        check(dill.loads(dill.dumps(s, protocol=proto)) is s, 'a user constant')
        check(s.__reduce__() == 'C26_HERE' and s.__reduce_ex__(proto) == 'C26_HERE', 'by name')
        if proto >= 4: check(dill.loads(dill.dumps(Getattr.NO_DEFAULT, protocol=proto)) is Getattr.NO_DEFAULT, 'a dotted name')
    old = D.C26_SENT; d = dill.dumps(old); D.C26_SENT = new = D.Sentinel('C26_SENT', 'dill._dill')
    check(dill.loads(d) is new, 'resolved when loaded')
