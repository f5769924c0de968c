from contracts.common import *
from contracts.c07 import round_trip
import threading, weakref, collections

LOCK, RLOCK = D.LockType, D.RLockType
def ref_model(m, refs):
    def ref(mm, a, kw):
        o = mm.alloc(weakref.ReferenceType); mm.attrs[o.addr] = {'#referent': a[0]}; return o
    def proxy(mm, a, kw):
        cb = mm.branch(mm.call(C(callable), [a[0]], {}))
        o = mm.alloc(weakref.CallableProxyType if cb else weakref.ProxyType); mm.attrs[o.addr] = {'#referent': a[0]}; return o
    m.env.model(weakref.ref, ref); m.env.model(weakref.proxy, proxy)
    m.env.model(collections.UserDict, lambda mm, a, kw: mm.alloc(collections.UserDict))


def lock_models(m, me):
    def touch(mm, o, what):
        if mm.attrs[o.addr].get('#original'): mm.trace.append(('touched', what))
    def acquire(mm, o, a, kw):
        touch(mm, o, 'acquire')
        if mm.branch(mm.attrs[o.addr]['#locked']): return FALSE
        mm.attrs[o.addr]['#locked'] = TRUE; return TRUE
    def release(mm, o, a, kw):
        touch(mm, o, 'release'); mm.attrs[o.addr]['#locked'] = FALSE; return NONE
    om = m.env.obj_method_models
    om[(LOCK, 'acquire')] = acquire; om[(LOCK, 'release')] = release
    om[(LOCK, '__enter__')] = acquire; om[(LOCK, '__exit__')] = release
    om[(LOCK, 'locked')] = lambda mm, o, a, kw: mm.attrs[o.addr]['#locked']
    def mk(mm, a, kw):
        o = mm.alloc(LOCK); mm.attrs[o.addr] = {'#locked': FALSE}; return o
    m.env.model(threading.Lock, mk); m.env.model(LOCK, mk)
    def mkr(mm, a, kw):
        o = mm.alloc(RLOCK); mm.attrs[o.addr] = {'#owner': C(0), '#count': C(0)}; return o
    m.env.model(RLOCK, mkr); m.env.model(threading.RLock, mkr)
    def restore(mm, o, a, kw):
        touch(mm, o, '_acquire_restore'); c, w = mm.unpack(a[0], 2)
        mm.attrs[o.addr].update({'#owner': w, '#count': c}); return NONE
    def saver(mm, o, a, kw):
        touch(mm, o, '_release_save'); d = mm.attrs[o.addr]; r = T([d['#count'], d['#owner']]); d.update({'#owner': C(0), '#count': C(0)}); return r
    def racquire(mm, o, a, kw):
        touch(mm, o, 'acquire'); d = mm.attrs[o.addr]
        d.update({'#owner': SInt(me), '#count': mkint(z3.simplify(zint(d['#count']) + 1))}); return TRUE
    def rrelease(mm, o, a, kw):
        touch(mm, o, 'release'); d = mm.attrs[o.addr]
        c = z3.simplify(zint(d['#count']) - 1); d['#count'] = mkint(c)
        d['#owner'] = mkint(z3.simplify(z3.If(c == 0, 0, zint(d['#owner'])))); return NONE
    om[(RLOCK, '_acquire_restore')] = restore; om[(RLOCK, '_release_save')] = saver
    om[(RLOCK, 'acquire')] = racquire; om[(RLOCK, '__enter__')] = racquire; om[(RLOCK, 'release')] = rrelease; om[(RLOCK, '__exit__')] = rrelease
    om[(RLOCK, '_is_owned')] = lambda mm, o, a, kw: mkbool(z3.simplify(zint(mm.attrs[o.addr]['#owner']) == me))
    def rrep(mm, o, a, kw):
        d = mm.attrs[o.addr]; own, cnt = zint(d['#owner']), zint(d['#count'])
        lk = 'locked' if mm.ctx.branch(own != 0) else 'unlocked'
        return mkstr(z3.Concat(z3.StringVal('<%s _thread.RLock object owner=' % lk), z3.IntToStr(own), z3.StringVal(' count='), z3.IntToStr(cnt), z3.StringVal(' at 0x'), ufun('hexword', I, STR)(ufun('addr_of', V, I)(term(o))), z3.StringVal('>')))
    om[(RLOCK, '__repr__')] = rrep


def untouched(m):
    m.prove('pickling never acquires or releases the original', not [e for e in m.trace if isinstance(e, tuple) and e[0] == 'touched'])


@unit('C08', 'lock', ['registered for LockType', 'dill._dill:_create_lock'], covers=['lock'])
def lock(m):
    """a lock is restored locked exactly if the original was locked; the original is not touched"""
    i, p = choose_pickler(m)
    lock_models(m, m.ctx.fresh('me', I))
    st = m.sym('locked', K_BOOL)
    obj = m.alloc(LOCK); m.attrs[obj.addr] = {'#locked': st, '#original': True}
    new = round_trip(m, save_fn(LOCK), p, obj, 'lock')
    if new is None: return
    m.cover('lock')
    untouched(m)
    m.prove('a new lock', m.pytype(new) is LOCK and not m.is_(new, obj) is True)
    if m.pytype(new) is LOCK: m.prove('in the same state', m.is_(m.attrs[new.addr]['#locked'], st))
    m.prove('the original keeps its state', m.is_(m.attrs[obj.addr]['#locked'], st))


@unit('C08', 'rlock', ['registered for RLockType', 'dill._dill:_create_rlock'], covers=['locked', 'unlocked', 'foreign'])
def rlock(m):
    """recursion count and owner survive; an unlocked one is unlocked; one of another thread is refused with UnpicklingError"""
    i, p = choose_pickler(m)
    me = m.ctx.fresh('me', I); m.assume(me > 0)
    lock_models(m, me)
    own, cnt = m.sym('owner', K_INT), m.sym('count', K_INT)
    m.assume([zint(own) >= 0, zint(cnt) >= 0, (zint(own) == 0) == (zint(cnt) == 0)])
    obj = m.alloc(RLOCK); m.attrs[obj.addr] = {'#owner': own, '#count': cnt, '#original': True}
    out, r = m.run(save_fn(RLOCK), [p, obj])
    m.prove('pickling returns normally', out == 'return')
    if out != 'return': return
    untouched(m)
    evs = events(m)
    m.prove('one memoised value is written', len(evs) == 1 and evs[0].kind == 'reduce' and m.is_(evs[0].obj, obj) is True)
    if len(evs) != 1 or evs[0].kind != 'reduce': return
    a = m.iterate(evs[0].args)
    out, new = m.run(evs[0].func, a)
    if m.ctx.branch(z3.And(zint(own) != 0, zint(own) != me)):
        m.cover('foreign')
        m.prove('a lock held by another thread is refused', out == 'raise' and m.pytype(new) is D.UnpicklingError)
        return
    m.prove('loading returns an RLock', out == 'return' and m.pytype(new) is RLOCK)
    if out != 'return': return
    m.cover('locked' if m.ctx.branch(zint(own) != 0) else 'unlocked')
    m.prove('the same recursion count', m.eq(m.attrs[new.addr]['#count'], cnt))
    m.prove('the same owner (none if unlocked)', m.eq(m.attrs[new.addr]['#owner'], own))


@unit('C08', 'weak reference', ['registered for ReferenceType', 'dill._dill:_create_weakref'], covers=['live', 'dead'])
def ref(m):
    """points at the restored referent, or is dead if the original was"""
    i, p = choose_pickler(m)
    ref_model(m, [])
    alive = m.ctx.choose(2)
    target = m.sym('target', Kind('target', cons='ref', open=True)) if alive else NONE
    obj = m.sym('obj', Kind('weakref', pytype=weakref.ReferenceType, cons='ref', call=lambda mm, o, a, kw: target))
    new = round_trip(m, save_fn(weakref.ReferenceType), p, obj, 'weakref')
    if new is None: return
    m.prove('a weak reference', m.pytype(new) is weakref.ReferenceType)
    if m.pytype(new) is not weakref.ReferenceType: return
    t = m.attrs[new.addr]['#referent']
    if alive: m.cover('live'); m.prove('to the restored object', same(m, t, target))
    else: m.cover('dead'); m.prove('to an object nothing else refers to, hence dead', isinstance(t, O) and only_temp(m, t))


def only_temp(m, t):
    """no live object refers to t (only local variables of finished calls did)"""
    for d in m.attrs.values():
        for k, x in d.items():
            if k != '#referent' and isinstance(x, (O, S)) and m.is_(x, t) is True: return False
    return True


@contract(D._proxy_helper, '_proxy_helper', 'C08')
def _proxy_helper(m, args, kwargs):
    """the address of what the proxy refers to, or of None if it is dead"""
    o = args[0]
    if isinstance(o, O) and '#referent' in m.attrs.get(o.addr, {}): return m.call(C(id), [m.attrs[o.addr]['#referent']], {})
    raise Unsupported('_proxy_helper of something not a proxy')


@unit('C08', 'weak proxy', ['registered for ProxyType', 'registered for CallableProxyType', 'dill._dill:_create_weakproxy'], covers=['live', 'dead'])
def proxy(m):
    """points at the restored referent, or is dead if the original was; callable if the original was"""
    i, p = choose_pickler(m)
    ref_model(m, [])
    alive, cb = m.ctx.choose(2), m.ctx.choose(2)
    t = weakref.CallableProxyType if cb else weakref.ProxyType
    target = m.sym('target', Kind('target', cons='ref', open=True)) if alive else NONE
    if alive: m.assume(ufun('callable', V, B)(target.t) == z3.BoolVal(bool(cb)))
    obj = m.alloc(t); m.attrs[obj.addr] = {'#referent': target}
    m.overrides = dict(m.overrides); m.overrides[host_rid(D._locate_object)] = lambda mm, a, kw: locate(mm, a, target)
    out, r = m.run(save_fn(t), [p, obj])
    m.prove('pickling returns normally', out == 'return')
    if out != 'return': return
    ld = Loader(m); st = ld.stream(events(m))
    m.prove('exactly one memoised value is written', st is not None and len(st) == 1 and m.is_(reduces(m)[0].obj, obj) is True)
    if not st: return
    new = st[0]
    m.prove('a proxy that is callable exactly if the original was', m.pytype(new) is t)
    if '#referent' not in m.attrs.get(getattr(new, 'addr', None), {}): return
    got = m.attrs[new.addr]['#referent']
    if alive: m.cover('live'); m.prove('to the restored object', same(m, got, target))
    else: m.cover('dead'); m.prove('to an object nothing else refers to, hence dead', isinstance(got, O) and only_temp(m, got))


def locate(m, a, target):
    """contract of _locate_object (C25): the object at that address"""
    want = m.call(C(id), [target], {})
    if m.branch(mkbool(m.eq(a[0], want))): return target
    raise Unsupported('_locate_object of another address')


@unit('C08', '_proxy_helper', ['dill._dill:_proxy_helper'], covers=['live', 'dead', 'str fails'])
def proxy_helper(m):
    """the referent's address is found whatever the referent's __str__ does; a dead proxy gives None's address"""
    hexw = ufun('hexword', I, STR)
    alive = m.ctx.choose(2)
    obj = m.alloc(weakref.ProxyType)
    target = m.sym('target', ANY)
    tid = m.call(C(id), [target], {}).t
    rep = mkstr(z3.Concat(z3.StringVal('<weakproxy at 0x'), hexw(m.ctx.fresh('here', I)), z3.StringVal(' to '), ufun('nospace_word', V, STR)(m.sym('tname', ANY).t), z3.StringVal(' at 0x'), hexw(tid), z3.StringVal('>')))
    text = m.sym('str', K_STR)               # (the name of a type is taken to contain no space)
    m.assume(text.t != rep.t)                # no object prints the address of the proxy made to it
    def s(mm, a, kw):
        if not m.is_(a[0], obj) is True: return mm.str_(a[0])
        if not alive: mm.raise_(ReferenceError, C('weakly-referenced object no longer exists'))
        if mm.ctx.choose(2):
            m.cover('str fails'); raise PyRaise(mm.sym_exc('str_error', (Exception,), (ReferenceError,)))
        return text
    m.overrides = dict(m.overrides); m.overrides[host_rid(str)] = s; m.overrides[host_rid(repr)] = lambda mm, a, kw: rep
    out, r = m.run(D._proxy_helper, [obj])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    if alive:
        m.cover('live'); m.prove('the address of the referent', m.eq(r, SInt(tid)))
    else:
        m.cover('dead'); m.prove('the address of None', m.eq(r, m.call(C(id), [NONE], {})))
