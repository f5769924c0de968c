from oracle import *
import dill, pickle, threading, weakref, gc, collections, _thread

MODES = [dict(), dict(recurse=True), dict(protocol=0), dict(protocol=2), dict(protocol=5)]
def stock(x): return pickle.loads(pickle._dumps(x, 4))


def can_acquire(l):
    """whether another thread could take it at once"""
    r = []
    def t():
        ok = l.acquire(False); r.append(ok)
        if ok: l.release()
    th = threading.Thread(target=t); th.start(); th.join(); return r[0]


@case()
def locks():
    for kw in MODES:
        for locked in (False, True):
            l = threading.Lock()
            if locked: l.acquire()
            c = dill.loads(dill.dumps(l, **kw))
            check(type(c) is type(l) and c is not l and c.locked() is locked, 'state %s' % locked)
            check(l.locked() is locked, 'original state unchanged')
            check(can_acquire(c) is (not locked), 'acquirable')
            if locked: c.release(); l.release(); check(not c.locked() and not l.locked(), 'releasable and independent')
            a, b = dill.loads(dill.dumps([l, l], **kw)); check(a is b, 'shared')
    l = threading.Lock(); l.acquire(); check(stock(l).locked() and dill.copy(l).locked(), 'stock pickler')


class Spy:
    """an object of the lock type's protocol that records being touched"""
    def __init__(self, locked): self.l, self.t = locked, []
    def locked(self): return self.l
    def __getattr__(self, n):
        self.__dict__['t'].append(n); raise AttributeError(n)


@case()
def not_touched():
    import dill._dill as D
    class P(D.Pickler):
        def __init__(self): import io; D.Pickler.__init__(self, io.BytesIO())
    for v in (True, False):
        s = Spy(v); D.save_lock(P(), s)
        check([x for x in s.t if not x.startswith('__')] == [], 'only locked() is asked')


@case()
def rlocks():
    for kw in MODES:
        for n in (0, 1, 2, 3, 17):
            l = threading.RLock()
            for _ in range(n): l.acquire()
            before = repr(l)
            c = dill.loads(dill.dumps(l, **kw))
            check(repr(l) == before, 'original untouched')
            r = repr(c)
            eq(r.split(' at ')[0], before.split(' at ')[0], 'owner and count, %d acquisitions' % n)
            check(type(c) is type(l) and c is not l and c._is_owned() is (n > 0), 'ownership')
            check(can_acquire(c) is (n == 0), 'held for other threads')
            for _ in range(n): c.release()
            raises(RuntimeError, c.release)
            check(can_acquire(c), 'free in the end')
            for _ in range(n): l.release()
            check(can_acquire(l), 'original independent')
            a, b = dill.loads(dill.dumps([l, l], **kw)); check(a is b, 'shared')
    l = threading.RLock()
    ev = threading.Event(); go = threading.Event()
    def t(): l.acquire(); ev.set(); go.wait(); l.release()
    th = threading.Thread(target=t); th.start(); ev.wait()
    s = dill.dumps(l); go.set(); th.join()
    raises(pickle.UnpicklingError, dill.loads, s)
    check(can_acquire(l), 'original of another thread untouched')


@case()
def conditions():
    for mk in (threading.Condition, threading.Event, lambda: threading.Semaphore(3), lambda: threading.BoundedSemaphore(2), threading.Barrier and (lambda: threading.Condition(threading.Lock()))):
        x = mk(); c = dill.loads(dill.dumps(x))
        check(type(c) is type(x), type(x).__name__)
    c = dill.loads(dill.dumps(threading.Condition()))
    with c: c.notify_all()
    tick('condition usable')
    e = threading.Event(); e.set(); check(dill.loads(dill.dumps(e)).is_set(), 'event')


class Obj:
    def __init__(self, v=None): self.v = v
class Falsy:
    def __bool__(self): return False
class Empty(collections.UserList): pass
class Callee:
    def __call__(self, *a): return ('called', a)
class Eq:
    def __eq__(self, o): return True
    def __hash__(self): return 1
def func(x): return x + 1


@case()
def weakrefs():
    for mk in (Obj, Falsy, Empty, Callee, Eq, lambda: {1, 2} and set([1]), lambda: (lambda x: x)):
        for kw in MODES:
            o = mk(); r = weakref.ref(o)
            o2, r2 = dill.loads(dill.dumps([o, r], **kw))
            check(type(r2) is weakref.ref and r2() is o2 and o2 is not o, 'object first: %s' % type(o).__name__)
            r2, o2 = dill.loads(dill.dumps([r, o], **kw))
            check(r2() is o2, 'reference first: %s' % type(o).__name__)
            r3, r4, o3 = dill.loads(dill.dumps([r, r, o], **kw)); check(r3 is r4, 'shared')
            check(r() is o, 'original')
            del o2; gc.collect(); check(r2() is None, 'only weak')
    for kw in MODES:
        o = Obj(); r = weakref.ref(o); del o; gc.collect()
        d = dill.loads(dill.dumps(r, **kw)); check(type(d) is weakref.ref and d() is None, 'dead')
        l = dill.loads(dill.dumps([Obj(), r, r], **kw)); check(l[1]() is None and l[1] is l[2], 'dead in a list')
        r = weakref.ref(func); check(dill.loads(dill.dumps(r, **kw))() is func, 'importable referent')
        r = weakref.ref(Obj); check(dill.loads(dill.dumps(r, **kw))() is Obj, 'class referent')
        o = Obj(); o.v = weakref.ref(o); c = dill.loads(dill.dumps(o, **kw)); check(c.v() is c, 'self reference')
    l = stock([o, o.v]); check(l[1]() is l[0], 'stock pickler')


def target_id(p):
    """identity of what a proxy shows, through the object itself"""
    return p.me()


class Self:
    def __init__(self, v=0): self.v = v
    def me(self): return self
class SelfCall(Self):
    def __call__(self, x): return (self.v, x)
class SelfStr(Self):
    def __str__(self): return 'custom text'
    def __repr__(self): return 'custom repr'
class SelfBool(Self):
    def __bool__(self): return False
class SelfStrAt(Self):
    def __str__(self): return 'meeting at 10'
class SelfStrBad(Self):
    def __str__(self): raise ValueError('no')
class SelfReprAt(Self):
    def __repr__(self): return '<weird at home>'


@case()
def proxies():
    for cls in (Self, SelfCall, SelfBool, SelfStr, SelfReprAt, SelfStrAt, SelfStrBad):
        for kw in MODES:
            o = cls(5); p = weakref.proxy(o)
            o2, p2 = dill.loads(dill.dumps([o, p], **kw))
            check(type(p2) is type(p) and p2.me() is o2 and o2 is not o, 'object first %s' % cls.__name__)
            p2, o2 = dill.loads(dill.dumps([p, o], **kw))
            check(p2.me() is o2, 'proxy first %s' % cls.__name__)
            check(callable(p2) == callable(p), 'callable')
            if callable(p): check(p2(3) == (5, 3), 'called')
            del o2; gc.collect(); raises(ReferenceError, lambda: p2.v)
            check(p.me() is o, 'original')
    for cls in (Self, SelfCall):
        for kw in MODES:
            o = cls(); p = weakref.proxy(o); del o; gc.collect()
            d = dill.loads(dill.dumps(p, **kw))
            check(type(d) is type(p) and callable(d) == callable(p), 'dead keeps its kind')
            raises(ReferenceError, lambda: d.v)
            l = dill.loads(dill.dumps([Self(1), p], **kw)); raises(ReferenceError, lambda: l[1].v)
    for kw in MODES:
        f = lambda x: x * 2
        f2, p2 = dill.loads(dill.dumps([f, weakref.proxy(f)], **kw))
        check(p2(4) == 8 and type(p2) is weakref.CallableProxyType, 'function proxy')
        o = Self(); o.p = weakref.proxy(o); c = dill.loads(dill.dumps(o, **kw)); check(c.p.me() is c, 'self proxy')
        a, b = Self(1), Self(2)
        l = dill.loads(dill.dumps([a, b, weakref.proxy(b), weakref.proxy(a)], **kw))
        check(l[2].me() is l[1] and l[3].me() is l[0], 'each its own referent')


@case()
def proxy_to_a_builtin_type():
    p = weakref.proxy(int)
    q = dill.loads(dill.dumps([int, p]))[1]
    check(type(q) is type(p) and q('7') == 7, 'proxy to a builtin type')
