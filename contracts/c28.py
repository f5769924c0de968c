from contracts.common import *
from contracts.c07 import round_trip
import ast, dataclasses
import types as _types

PROXY = _types.MappingProxyType
DESCRIPTORS = [_types.MemberDescriptorType, _types.GetSetDescriptorType, _types.MethodDescriptorType, _types.WrapperDescriptorType, _types.ClassMethodDescriptorType]


def a_class(m, ns):
    """any class, whose namespace holds anything"""
    def item(mm, v, k):
        r = mm.dget(ns, k)
        if r is ABSENT: mm.raise_(KeyError, k)
        return r
    def get(mm, o, a, kw):
        r = mm.dget(ns, a[0]); return (a[1] if len(a) > 1 else NONE) if r is ABSENT else r
    proxy = m.sym('namespace', Kind('proxy', pytype=PROXY, cons='ref', getitem=item, contains=lambda mm, v, k: mm.dget(ns, k) is not ABSENT, methods={'get': get, '__getitem__': lambda mm, o, a, kw: item(mm, o, a[0])}))
    return m.sym('class', Kind('class', isa=(type,), cons='ref', attrs={'__dict__': proxy, '__name__': K_STR, '__qualname__': K_STR, '__module__': K_STR}, open=True))


@unit('C28', 'what a class holds under a name', ['dill._dill:_getattr'], covers=['found'], seconds=60)
def getattr_(m):
    """whatever the class is called, and however the descriptor is shown"""
    N = m.ctx.fresh('namespace', z3.ArraySort(V, OV)); ns = m.alloc(dict); m.dicts[ns.addr] = DMap(N, (), K_STR, ANY)
    cls = a_class(m, ns); name, text = m.sym('name', K_STR), m.sym('text', K_STR); held = z3.Select(N, term(name)); m.assume(OV.is_some(held))
    m.overrides = dict(m.overrides); m.overrides[host_rid(eval)] = lambda mm, a, kw: mm.sym('what the text evaluates to', ANY)
    out, r = m.run(D._getattr, [cls, name, text]); m.prove('no exception', out == 'return')
    if out != 'return': return
    m.cover('found'); m.prove('what the class holds under the name', term(r) == OV.val(held))


@unit('C28', 'descriptors', ['registered for each type of descriptor'], covers=['descriptor'], seconds=60)
def descriptors(m):
    """a descriptor is looked up, under its name, in its class as restored"""
    t = DESCRIPTORS[m.ctx.choose(len(DESCRIPTORS))]; i, p = choose_pickler(m)
    if t not in D.Pickler.dispatch: return       # stored by the standard pickler
    cls, name = m.sym('class', ANY), m.sym('name', K_STR)
    obj = m.sym('descriptor', Kind('descriptor', pytype=t, cons='ref', attrs={'__objclass__': cls, '__name__': name}, methods={'__repr__': lambda mm, o, a, kw: mm.sym('text', K_STR)}))
    asked = []; held = m.sym('what it holds', ANYREF); m.overrides = dict(m.overrides)
    m.overrides[host_rid(D._getattr)] = lambda mm, a, kw: (asked.append(a), held)[1]
    new = round_trip(m, save_fn(t), p, obj, 'descriptor')
    if new is None: return
    m.cover('descriptor'); m.prove('looked up in its class', len(asked) == 1 and And(m.is_(asked[0][0], cls), m.eq(asked[0][1], name)))
    m.prove('and nothing else', new is held or m.is_(new, held))


@unit('C28', 'markers of dataclasses', ['dill._dill:save_dataclasses'], covers=['marker'], seconds=60)
def markers(m):
    """a marker is stored as the name under which the module has it"""
    names = [n for n in ('MISSING', 'KW_ONLY', '_HAS_DEFAULT_FACTORY', '_FIELD', '_FIELD_CLASSVAR', '_FIELD_INITVAR') if hasattr(dataclasses, n)]
    obj = getattr(dataclasses, names[m.ctx.choose(len(names))]); i, p = choose_pickler(m)
    out, r = m.run(save_fn(type(obj)), [p, C(obj)]); m.prove('no exception', out == 'return')
    if out != 'return': return
    ev = events(m); m.cover('marker')
    if len(ev) == 1 and ev[0].kind == 'reduce': m.prove('the marker', isinstance(ev[0].func, C) and False); return
    if len(ev) == 1 and ev[0].kind == 'global': m.prove('the marker', m.is_(ev[0].obj, C(obj))); return
    data = [m.force(e.data) for e in ev if e.kind == 'write']
    if len(data) != len(ev) or not all(isinstance(d, C) for d in data): raise Unsupported('what is written')
    b = b''.join(d.v for d in data); ok = b[:1] == b'c' and b.count(b'\n') == 2 and b.endswith(b'\n')
    m.prove('one global', ok)
    if ok: mod, name = b[1:-1].decode().split('\n'); m.prove('which is the marker', mod == 'dataclasses' and getattr(dataclasses, name, None) is obj)


# ------------------------------------------------------------------ numpy
def saver(m, what):
    """what Pickler.save does with an object of a type that is a ufunc, a dtype or an array of a subclass, or neither; the savers that it registers"""
    i = m.ctx.choose(2); p = mk_pickler(m, i); m.overrides = dict(m.overrides); regs, calls = [], []
    K_T = Kind('its_type', isa=(type,), cons='ref', open=True)
    t = m.sym('its_type', K_T); obj = m.sym('obj', Kind('object', cons='ref', attrs={'__class__': t}, open=True)); asked = []
    def is_type(mm, a): return t if len(a) == 1 and mm.is_(a[0], obj) is True else None
    real = m.overrides.get(host_rid(type)); m.overrides[host_rid(type)] = lambda mm, a, kw: t if len(a) == 1 and mm.is_(a[0], obj) is True else mm.env.models[host_rid(type)](mm, a, kw)
    for n in ('numpyufunc', 'numpydtype', 'ndarraysubclassinstance'):
        def pred(mm, a, kw, n=n): asked.append(n); mm.prove('of its type', mm.is_(a[0], t)); return C(n == what)
        m.overrides[host_rid(getattr(D, n))] = pred
    def register(mm, a, kw):
        mm.prove('for its type', mm.is_(a[0], t)); mm.prove('before it is stored', not calls)
        return mm.sym('registering', Kind('registering', cons='ref', call=lambda m3, v3, a3, kw3: (regs.append(a3[0]), a3[0])[1]))
    m.overrides[host_rid(D.register)] = register
    m.overrides[host_rid(D.StockPickler.save)] = lambda mm, a, kw: (calls.append((a, kw)), NONE)[1]
    return p, t, obj, regs, calls


KINDS = ('numpyufunc', 'numpydtype', 'ndarraysubclassinstance', None)


@unit('C28', 'storing by type', ['dill._dill:Pickler.save'], covers=['registered', 'left alone', 'in the table'], seconds=60)
def save(m):
    """every object is handed to the standard pickler once; only types of numpy that are not in the table yet get a saver, before that"""
    what = KINDS[m.ctx.choose(4)]; p, t, obj, regs, calls = saver(m, what)
    T_ = m.ctx.fresh('dispatch', z3.ArraySort(V, OV)); m.dicts[host_rid(D.Pickler.dispatch)] = DMap(T_, (), K_TYPE, ANY); known = OV.is_some(z3.Select(T_, term(t)))
    pid = m.sym('save_persistent_id', K_BOOL); given = m.ctx.choose(2)
    out, r = m.run(D.Pickler.save, [p, obj] + ([pid] if given else [])); m.prove('no exception', out == 'return')
    if out != 'return': return
    m.prove('handed to the standard pickler once', len(calls) == 1)
    if len(calls) != 1: return
    import inspect
    b = inspect.signature(D.StockPickler.save).bind(*calls[0][0], **calls[0][1]).arguments
    m.prove('the same object, by the same pickler', And(m.is_(b['self'], p), m.is_(b['obj'], obj)))
    m.prove('with the same option', m.eq(b.get('save_persistent_id', C(True)), pid if given else C(True)))
    skip = z3.Or(known, z3_(m.is_(t, C(type))))
    if m.ctx.branch(skip): m.cover('in the table'); m.prove('a known type is left alone', not regs)
    elif what: m.cover('registered'); m.prove('one saver', len(regs) == 1)
    else: m.cover('left alone'); m.prove('other types are left alone', not regs)


def z3_(f): return z3.BoolVal(f) if isinstance(f, bool) else f


@unit('C28', 'arrays of a subclass', ['dill._dill:Pickler.save', 'dill._dill:_set_array_state'], covers=['array', 'with attributes', 'without'], seconds=60)
def arrays(m):
    """numpy makes an array of the class; its state, and its attributes, are set when references to it can be resolved"""
    p, t, probe, regs, calls = saver(m, 'ndarraysubclassinstance'); m.dicts[host_rid(D.Pickler.dispatch)] = DMap(EMPTYD, (), K_TYPE, ANY)
    m.run(D.Pickler.save, [p, probe])
    if len(regs) != 1: m.prove('a saver is registered', False); return
    made = []
    def make(mm, a, kw): made.append(a); o = mm.alloc(A); mm.attrs[o.addr] = {}; mm.attrs[o.addr]['__dict__'] = nd; m.dicts[nd.addr] = DMap(); m.attrs[o.addr]['__setstate__'] = mm.sym('setstate', Kind('setstate', cons='ref', call=lambda m3, v, a3, kw3: (states.append((o, a3[0])), NONE)[1])); return o
    nd = m.alloc(dict); has = m.ctx.choose(2); N = m.ctx.fresh('attributes', z3.ArraySort(V, OV)); d = m.alloc(dict); m.dicts[d.addr] = DMap(N, (), K_STR, ANY)
    class A: pass
    states = []
    f = m.sym('reconstruct', Kind('reconstruct', cons='ref', call=lambda mm, v, a, kw: make(mm, a, kw))); args = T([m.sym('arg%d' % i, ANY) for i in range(3)]); state = m.sym('state', K_TUPLE)
    for x in args.items: m.assume(And(Not(m.is_(x, state)), Not(m.is_(x, d))))
    obj = m.sym('array', Kind('array', cons='ref', attrs={'__dict__': (lambda mm, t: d if has else ABSENT), 'shape': K_TUPLE, 'dtype': ANYREF}, methods={'__reduce__': lambda mm, o, a, kw: T([f, args, state])}))
    out, r = m.run(regs[0], [p, obj]); m.prove('no exception', out == 'return')
    if out != 'return': return
    ev = reduces(m); m.prove('one reduction', len(ev) == 1 and len([e for e in events(m) if e.kind != 'reduce']) == 0)
    if len(ev) != 1: return
    ev = ev[0]; m.cover('array'); m.cover('with attributes' if has else 'without')
    m.prove('the array is known before its state is stored', ev.obj is not None and m.is_(ev.obj, obj))
    a = m.finite(ev.args)
    for x in a: m.prove('what makes it does not hold what can refer to it', And(Not(m.is_(x, state)), Not(m.is_(x, d))))
    n = Loader(m).event(ev)
    m.prove('numpy makes it, of what it gave', len(made) == 1 and len(made[0]) == 3 and And(*[m.is_(x, y) for x, y in zip(made[0], args.items)]))
    m.prove('its state is set', len(states) == 1 and And(m.is_(states[0][0], n), m.is_(states[0][1], state)))
    m.prove('the array itself', m.pytype(n) is A)
    if m.pytype(n) is A: k = m.ctx.fresh('attribute', V); m.prove('its attributes', z3.Select(m.dmap(m.getattr(n, '__dict__')).array(), k) == (z3.Select(N, k) if has else OV.absent))


@unit('C28', 'ufuncs', ['dill._dill:Pickler.save'], covers=['ufunc'], seconds=60)
def ufuncs(m):
    """a ufunc is stored as the global of its name"""
    p, t, probe, regs, calls = saver(m, 'numpyufunc'); m.dicts[host_rid(D.Pickler.dispatch)] = DMap(EMPTYD, (), K_TYPE, ANY)
    m.run(D.Pickler.save, [p, probe])
    if len(regs) != 1: m.prove('a saver is registered', False); return
    q, n = m.sym('qualname', K_STR), m.sym('name', K_STR); has = m.ctx.choose(2); got = []
    obj = m.sym('ufunc', Kind('ufunc', cons='ref', attrs={'__qualname__': lambda mm, t: q if has else ABSENT, '__name__': n}))
    m.overrides[host_rid(D.StockPickler.save_global)] = lambda mm, a, kw: (got.append((a, kw)), NONE)[1]
    out, r = m.run(regs[0], [p, obj]); m.prove('no exception', out == 'return')
    if out != 'return' or len(got) != 1: m.prove('one global', False); return
    m.cover('ufunc'); import inspect
    b = inspect.signature(D.StockPickler.save_global).bind(*got[0][0], **got[0][1]).arguments
    m.prove('of the ufunc, under its name', And(m.is_(b['obj'], obj), Or(m.eq(b.get('name', NONE), q if has else n), m.is_(b.get('name', NONE), NONE))))


# ------------------------------------------------------------------ which types
@unit('C28', 'types of numpy', ['dill._dill:ndarraysubclassinstance', 'dill._dill:numpyufunc'], covers=['of numpy', 'not of numpy', 'with its own reduction'], seconds=60)
def which(m):
    """a class with any number of base classes: an array exactly if one of them is ndarray and the reduction is numpy's own"""
    import numpy
    fn, want = ((D.ndarraysubclassinstance, ('numpy', 'ndarray')), (D.numpyufunc, ('numpy', 'ufunc')))[m.ctx.choose(2)]
    n = m.ctx.fresh('n', I); m.assume(n >= 1); at = z3.Function('base', I, V); K_C = Kind('base', isa=(type,), cons='ref', attrs={'__module__': K_STR, '__name__': K_STR, '__qualname__': K_STR})
    mro = m.sym('mro', Kind('mro', pytype=tuple, cons='ref', iter=lambda mm, v: Seq(n, lambda i: mm.as_kind(at(i if not isinstance(i, int) else z3.IntVal(i)), K_C), ('mro',))))
    own = {k: m.ctx.choose(2) for k in ('__reduce__', '__reduce_ex__')}; other = m.sym('another', ANYREF)
    for k in own: m.assume(Not(m.is_(other, C(getattr(numpy.ndarray, k)))))
    t = m.sym('type', Kind('type', isa=(type,), cons='ref', attrs={'__mro__': mro, **{k: (other if own[k] else C(getattr(numpy.ndarray, k))) for k in own}}))
    found = m.ctx.choose(2); later = {}
    def hit(i):
        c = m.as_kind(at(i), K_C); return And(m.eq(m.getattr(c, '__module__'), C(want[0])), m.eq(m.getattr(c, '__name__'), C(want[1])))
    def comp(mm, x, fr):
        if len(x.generators) != 1: return None
        seq = mm.iterate(mm.eval(x.generators[0].iter, fr))
        if not isinstance(seq, Seq) or not seq.src or seq.src[0] != 'mro': return None
        o = mm.alloc(list); later[o.addr] = (x, fr, seq); return o
    m.ghost['comp_hooks'] = [comp]; m.overrides = dict(m.overrides); m.overrides[host_rid(D.__hook__)] = lambda mm, a, kw: C(True)
    m.attrs.setdefault(host_rid(D), {})['NumpyArrayType'] = C(numpy.ndarray)
    def quantified(f):
        def g(mm, a, kw):
            if not isinstance(a[0], O) or a[0].addr not in later: return mm.env.models[host_rid(f)](mm, a, kw)
            x, fr, seq = later[a[0].addr]; gen = x.generators[0]; sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield; sub.locals.update(k.id for k in ast.walk(gen.target) if isinstance(k, ast.Name))
            if gen.ifs: raise Unsupported('some bases')
            if mm.ctx.choose(2):
                i = mm.ctx.fresh('i', I); mm.assume([i >= 0, i < n]); mm.assign(gen.target, seq.get(i), sub); v = mm.truth(mm.eval(x.elt, sub)); h = hit(i)
                mm.prove('each base is looked at by module and name', z3_(v) == z3_(h if f is any else Not(h))); raise PathEnd('a base')
            return C(bool(found) if f is any else not found)
        return g
    for f in (any, all): m.overrides[host_rid(f)] = quantified(f)
    out, r = m.run(fn, [t]); m.prove('no exception', out == 'return')
    if out != 'return': return
    m.cover('of numpy' if found else 'not of numpy'); custom = fn is D.ndarraysubclassinstance and any(own.values())
    if found and custom: m.cover('with its own reduction')
    m.prove('exactly such types', z3_(m.truth(r)) == z3.BoolVal(bool(found and not custom)))
