from oracle import *
import dill, types, itertools, pickle
import dill._dill as D


def mkcell(v): return types.CellType(v)


def is_empty(c):
    try: c.cell_contents
    except ValueError: return True
    return False


MODES = [dict(), dict(recurse=True), dict(byref=True), dict(recurse=True, byref=True)]


@case()
def plain_cells():
    for v in (None, 0, 1, '', 'x', [1, 2], {'a': 1}, (), int, len, b'\xff', 1.5, [[]], False, ValueError):
        for kw in MODES:
            for proto in range(6):
                c = dill.loads(dill.dumps(mkcell(v), proto, **kw))
                check(type(c) is types.CellType and c.cell_contents == v and type(c.cell_contents) is type(v), 'cell %r' % (v,))


@case()
def empty_cells():
    for kw in MODES:
        for proto in range(6):
            c = dill.loads(dill.dumps(types.CellType(), proto, **kw))
            check(is_empty(c), 'empty cell')
            a, b, c = dill.loads(dill.dumps([1, types.CellType(), 2], proto, **kw))
            check((a, c) == (1, 2) and is_empty(b), 'empty cell in a list')
    raises(ValueError, lambda: D._create_cell(D._CELL_EMPTY).cell_contents)
    eq(D._create_cell().cell_contents, None, 'legacy default')
    eq(D._create_cell(5).cell_contents, 5, 'create')


def empty_closure():
    def outer():
        def inner(): return x
        if False: x = 1
        return inner
    return outer()


@case()
def empty_in_closure():
    f = empty_closure()
    for kw in MODES:
        g = dill.loads(dill.dumps(f, **kw))
        check(len(g.__closure__) == 1 and is_empty(g.__closure__[0]), 'empty closure cell')
        raises(NameError, g)
        e = types.CellType()
        l = dill.loads(dill.dumps([e, e, f, f], **kw))
        check(l[0] is l[1] and is_empty(l[0]) and l[2] is l[3], 'shared empty cell')


@case('cells outside functions')
def lone_cells():
    for kw in MODES:
        for proto in range(6):
            c = mkcell([1]); d = mkcell(c); a, b, e, v = dill.loads(dill.dumps([c, c, d, c.cell_contents], proto, **kw)); check(a is b and e.cell_contents is a and a.cell_contents is v, 'one cell')
            c = mkcell(None); l = [c]; c.cell_contents = l; r = dill.loads(dill.dumps(l, proto, **kw)); check(r[0].cell_contents is r, 'a cell within its list')
    def f(): return c, x
    x = 5; g, k, k2 = dill.loads(dill.dumps([f, f.__closure__[0], f.__closure__[1]])); check(g.__closure__[0] is k and g.__closure__[1] is k2, 'a closure and its cells')


@case()
def mixed_empty_and_full():
    def outer(a, b):
        def g(): return a, b, later, fn
        def fn(): return g
        fn_cell = g
        return g
    def outer2(flag):
        def g(): return later
        def h(): return g, later2
        if flag: later = [g, h]
        later2 = 7
        return g, h
    for kw in MODES:
        g, h = dill.loads(dill.dumps(outer2(False), **kw))
        check(is_empty(g.__closure__[0]), 'later is empty'); raises(NameError, g)
        check(h()[0] is g and h()[1] == 7, 'h keeps g')
        g, h = dill.loads(dill.dumps(outer2(True), **kw))
        check(g()[0] is g and g()[1] is h and h()[0] is g, 'later refers back')


@case()
def recursion():
    def outer(n):
        def fact(k): return 1 if k <= 1 else k * fact(k - 1)
        return fact
    def mutual():
        def even(n): return True if n == 0 else odd(n - 1)
        def odd(n): return False if n == 0 else even(n - 1)
        return even, odd
    def chain():
        def a(): return b
        def b(): return c
        def c(): return a
        return a
    def through_containers():
        box = []
        def f(): return box
        box.append(f); box.append({'f': f, 't': (f,)})
        return f
    def through_class():
        class K:
            def me(self): return K
            def other(self): return f
            attr = None
        def f(): return K
        K.attr = f
        return f, K
    for kw in MODES[:2]:
        f = dill.loads(dill.dumps(outer(1), **kw))
        check(f.__closure__[0].cell_contents is f and f(5) == 120, 'self reference')
        e, o = dill.loads(dill.dumps(mutual(), **kw))
        check(e.__closure__[0].cell_contents is o and o.__closure__[0].cell_contents is e and e(10) is True, 'mutual')
        a = dill.loads(dill.dumps(chain(), **kw))
        check(a()()() is a, 'cycle of three')
        f = dill.loads(dill.dumps(through_containers(), **kw))
        check(f()[0] is f and f()[1]['f'] is f and f()[1]['t'][0] is f, 'cycle through containers')
        f, K = dill.loads(dill.dumps(through_class(), **kw))
        check(f() is K and K().me() is K and K().other() is f and K.attr is f, 'cycle through a class')


@case()
def instance_cycles():
    def make():
        class A: pass
        a = A()
        def get(): return a
        a.get = get
        def deep():
            def deeper(): return a, deep
            return deeper
        a.deep = deep
        return a
    for kw in MODES[:2]:
        a = dill.loads(dill.dumps(make(), **kw))
        check(a.get() is a and a.deep()()[0] is a and a.deep()()[1] is a.deep, 'instance cycle')


@case()
def sharing():
    def counter():
        n = 0
        def inc():
            nonlocal n
            n += 1
            return n
        def get(): return n
        def both(): return inc, get, n
        return inc, get, both
    for kw in MODES[:2]:
        for proto in range(6):
            inc, get, both = dill.loads(dill.dumps(counter(), proto, **kw))
            inc(); inc()
            check(get() == 2 and both()[2] == 2, 'shared cell')
            check(both()[0] is inc and both()[1] is get, 'shared functions')
        orig = counter(); orig[0]()
        c2 = dill.loads(dill.dumps(orig, **kw)); c2[0]()
        check(orig[1]() == 1 and c2[1]() == 2, 'the copy has its own cell, the original is unchanged')


@case()
def shared_between_containers():
    def mk():
        x = [0]
        def f(): return x
        def g(): return x
        return {'f': f, 'g': [g, f.__closure__[0], g.__closure__[0]]}, x
    for kw in MODES[:2]:
        d, x = dill.loads(dill.dumps(mk(), **kw))
        check(d['f']() is d['g'][0]() is x, 'one list')
        check(d['f'].__closure__[0] is d['g'][1] is d['g'][2] is d['g'][0].__closure__[0], 'one cell')


@case()
def deferred_fill_once():
    """the deferred fill of a cell happens exactly once per cell"""
    fills = []
    class Spy(D.Unpickler): pass
    def outer():
        def f(): return f, g, x
        def g(): return f, x
        x = 3
        return f, g
    import pickletools
    for kw in MODES[:2]:
        data = dill.dumps(outer(), **kw)
        f, g = dill.loads(data)
        ops = [(o.name, a) for o, a, p in pickletools.genops(data)]
        n = sum(1 for o, a in ops if a == 'cell_contents' and o != 'MEMOIZE')
        cells = {id(c) for fn in (f, g) for c in fn.__closure__}
        total = sum(1 for i, (o, a) in enumerate(ops) if o in ('BINUNICODE', 'SHORT_BINUNICODE') and a == 'cell_contents')
        check(total <= 1, 'attribute name stored at most once (memoised)')
        check(g()[0] is f and f()[1] is g and f()[2] == 3, 'contents')


@case()
def cell_with_pending_owner():
    # a class whose method closes over an instance of it and over another pending class
    def mk():
        class A:
            def a(self): return A, B, inst
        class B(A):
            def b(self): return super().a()
            def c(self): return __class__
        inst = B()
        inst.back = B
        return A, B, inst
    for kw in MODES[:2]:
        A, B, inst = dill.loads(dill.dumps(mk(), **kw))
        check(inst.a() == (A, B, inst) and inst.b()[2] is inst and inst.c() is B and inst.back is B and type(inst) is B, 'class cells')


@case()
def builtin_pickler_cells():
    import io, pickle
    dill.extend(True)
    f = io.BytesIO(); p = pickle._Pickler(f); p.dump([mkcell(3), types.CellType()])
    a, b = pickle.loads(f.getvalue())
    check(a.cell_contents == 3 and is_empty(b), 'stock pickler')
