from contracts.common import *
from pyvc.interp import _StarSeq
import inspect


def loads_as(m, shim):
    """what the pickle of a shim loads as: its reduction is evaluated"""
    try: return 'return', Loader(m).val(shim)
    except PyRaise as r: return 'raise', r.val


@unit('C26', 'Reduce', ['dill._shims:Reduce'], covers=['plain', 'callable'])
def reduce_(m):
    """for every tuple of arguments: the reduction is exactly that tuple, with every protocol; copies are the object itself"""
    red = m.sym('reduction', K_TUPLE)
    kw = {}
    cb = None
    if m.ctx.choose(2): cb = m.sym('is_callable', K_BOOL); kw['is_callable'] = cb
    out, o = m.run(C(SHIMS.Reduce), [_StarSeq(red)], kw)
    m.prove('constructed', out == 'return' and isinstance(o, O))
    if out != 'return': return
    is_cb = cb is not None and m.branch(cb)
    m.cover('callable' if is_cb else 'plain')
    m.prove('a shim, callable exactly if asked for', m.pytype(o) is (SHIMS._CallableReduce if is_cb else SHIMS.Reduce))
    for meth, a in (('__reduce__', []), ('__reduce_ex__', [m.sym('protocol', K_INT)])):
        out, r = m.run(m.getattr(o, meth), a)
        m.prove('%s gives exactly the given reduction' % meth, out == 'return' and m.is_(r, red))
    for meth, a in (('__copy__', []), ('__deepcopy__', [m.sym('memo', K_DICT)])):
        out, r = m.run(m.getattr(o, meth), a)
        m.prove('%s gives the object itself' % meth, out == 'return' and m.is_(r, o))
    for t in (SHIMS.Reduce, SHIMS._CallableReduce):
        m.prove('pickled by its reduction only', t not in D.Pickler.dispatch)


@unit('C26', 'calling a shim', ['dill._shims:_CallableReduce.__call__'], covers=['called'])
def call_(m):
    """the object the reduction stands for is called with the same arguments, once, and its result returned"""
    log = []
    def target_call(mm, f, a, kw): log.append(('obj', a, kw)); return mm.ghost['result']
    obj = m.sym('obj', Kind('obj', cons='ref', call=target_call)); m.ghost['result'] = m.sym('result', ANY)
    fa = m.sym('f_args', K_TUPLE)
    func = m.sym('func', Kind('func', cons='ref', call=lambda mm, f, a, kw: log.append(('func', a, kw)) or obj))
    o = m.alloc(SHIMS._CallableReduce); m.attrs[o.addr] = {'reduction': T([func, fa])}
    star = m.sym('args', K_TUPLE); kw = DMap(m.ctx.fresh('kwargs', DICT), (), K_STR, None); arr = kw.array()
    m.assume(OV.is_absent(z3.Select(arr, z3.simplify(V.strv(z3.StringVal('self'))))))
    out, r = m.run(o, [_StarSeq(star)], {}, kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('called')
    m.prove('the reduction is evaluated, then its value called', [x[0] for x in log] == ['func', 'obj'])
    if len(log) != 2: return
    a = log[0][1]
    m.prove('with the arguments of the reduction', len(a) == 1 and isinstance(a[0], _StarSeq) and m.is_(a[0].val, fa) and not log[0][2])
    a, k = log[1][1], log[1][2]
    m.prove('with the same positional arguments', len(a) == 1 and isinstance(a[0], _StarSeq) and m.is_(a[0].val, star))
    m.prove('with the same keyword arguments', set(k) == {'**'} and k['**'].array() == arr)
    m.prove('its result is returned', m.is_(r, m.ghost['result']))


def check_getattr(m, shim, obj_attr, default, what):
    """obj_attr: the attribute's value or ABSENT; default: value or ABSENT"""
    out, r = loads_as(m, shim)
    if obj_attr is not ABSENT:
        m.cover('attribute'); m.prove('%s loads as the attribute' % what, out == 'return' and m.is_(r, obj_attr))
    elif default is not ABSENT:
        m.cover('default'); m.prove('%s loads as the default' % what, out == 'return' and m.is_(r, default))
    else:
        m.cover('missing'); m.prove('without default it fails as the attribute access does', out == 'raise' and m.pytype(r) is AttributeError)


def default_arg(m):
    n = m.ctx.choose(3)
    if n == 0: return ABSENT, ABSENT
    if n == 1: return C(SHIMS.Getattr.NO_DEFAULT), ABSENT
    d = m.sym('default', ANY)
    m.assume(z3.Implies(V.is_ref(d.t), V.rid(d.t) >= 0))
    return d, d


@unit('C26', 'Getattr', ['dill._shims:Getattr'], covers=['attribute', 'default', 'missing'])
def getattr_(m):
    """loads as the attribute if there is one, else as the default, else fails"""
    obj = m.sym('obj', Kind('holder', cons='ref', open=True))
    passed, default = default_arg(m)
    args = [obj, C('spam')] + ([] if passed is ABSENT else [passed])
    out, shim = m.run(SHIMS.Getattr, args)
    m.prove('constructed', out == 'return' and isinstance(shim, O) and m.pytype(shim) in (SHIMS.Reduce, SHIMS._CallableReduce))
    if out != 'return': return
    if default is not ABSENT:
        m.prove('callable exactly if the default is', m.eq(C(m.pytype(shim) is SHIMS._CallableReduce), m.call(C(callable), [default], {})))
    check_getattr(m, shim, m.lookup_attr(obj, 'spam'), default, 'the shim')


@unit('C26', 'register_shim', ['dill._shims:register_shim'], covers=['attribute', 'default', 'missing', 'moved'])
def register(m):
    """a function of that name is published in the core module; the shim loads as the core module's attribute, else as the default"""
    name = 'c26_shim_name'
    m.overrides = dict(m.overrides); m.overrides[host_rid(globals)] = lambda mm, a, kw: C(SHIMS.__dict__)
    there = m.ctx.choose(2)
    fn = m.sym('func', Kind('func', cons='ref', open=True))
    gd = m.dmap(C(SHIMS.__dict__)); dd = m.dmap(C(D.__dict__)); before = list(dd.writes)
    if there: m.dset(C(SHIMS.__dict__), C(name), fn)
    elif m.ctx.choose(2):
        pre = m.sym('preset', ANYREF); m.dset(C(D.__dict__), C(name), pre); before = list(dd.writes)
    else: pre = ABSENT
    passed, default = default_arg(m)
    if passed is ABSENT: passed = C(SHIMS.Getattr.NO_DEFAULT)
    out, shim = m.run(SHIMS.register_shim, [C(name), passed])
    m.prove('constructed', out == 'return' and isinstance(shim, O) and m.pytype(shim) in (SHIMS.Reduce, SHIMS._CallableReduce))
    if out != 'return': return
    now = [(k, x) for k, x in m.dmap(C(D.__dict__)).writes]
    if there:
        m.cover('moved')
        m.prove('the function becomes an attribute of the core module', now[:-1] == before and now[-1][0].v == name and m.is_(now[-1][1], fn))
        m.prove('and says so', m.is_(m.getattr(fn, '__module__'), C('dill._dill')))
    else: m.prove('the core module is left alone', now == before)
    check_getattr(m, shim, fn if there else pre, default, 'the shim')


@unit('C26', 'move_to', ['dill._shims:move_to'], covers=['moved'])
def move(m):
    """the function is published in the module under the given name (its own by default), and returned"""
    import types
    mod = types.ModuleType('c26_mod')
    fn = m.sym('func', Kind('func', cons='ref', open=True, attrs={'__name__': K_STR}))
    nm = m.sym('name', OneOf(K_NONE, K_STR))
    m.assume([nm.t != V.strv(z3.StringVal('__name__')), zstr(m.lookup_attr(fn, '__name__')) != '__name__'])     # (renaming the module itself)
    args = [C(mod)] + ([nm] if m.ctx.choose(2) else [])
    out, deco = m.run(SHIMS.move_to, args)
    m.prove('gives a decorator', out == 'return')
    if out != 'return': return
    before = list(m.dmap(C(mod.__dict__)).writes)
    out, r = m.run(deco, [fn])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('moved')
    m.prove('the function is returned', m.is_(r, fn))
    g = m.force(nm) if len(args) > 1 else NONE
    want = m.lookup_attr(fn, '__name__') if m.is_(g, NONE) is True else g
    m.prove('published under that name', m.is_(m.dget(C(mod.__dict__), want), fn))
    m.prove('nothing else changes', len(m.dmap(C(mod.__dict__)).writes) <= len(before) + 1)
    m.prove('and says so', m.is_(m.getattr(fn, '__module__'), C('c26_mod')))


@unit('C26', 'Sentinel', ['dill._dill:Sentinel'], covers=['explicit', 'caller'])
def sentinel(m):
    """pickled as the constant of its name in its module; copies are the object itself"""
    name = m.sym('name', K_STR); caller = m.sym('caller', K_STR); mod = m.sym('module', K_STR)
    g = m.new_dict([(C('__name__'), caller)])
    back = m.sym('f_back', Kind('frame', cons='ref', attrs={'f_globals': g}))
    fr = m.sym('frame', Kind('frame', cons='ref', attrs={'f_back': back}))
    m.overrides = dict(m.overrides); m.overrides[host_rid(inspect.currentframe)] = lambda mm, a, kw: fr
    m.overrides[host_rid(sys._getframe)] = lambda mm, a, kw: back
    args = [name]
    if m.ctx.choose(2): args.append(mod); m.cover('explicit')
    else: m.cover('caller')
    out, o = m.run(C(D.Sentinel), args)
    m.prove('constructed', out == 'return')
    if out != 'return': return
    m.prove('belongs to the given module, or to the caller\'s', m.is_(m.getattr(o, '__module__'), mod if len(args) > 1 else caller))
    for meth, a in (('__reduce__', []), ('__reduce_ex__', [m.sym('protocol', K_INT)])):
        out, r = m.run(m.getattr(o, meth), a)
        m.prove('%s names the constant' % meth, out == 'return' and m.is_(r, name))
    for meth, a in (('__copy__', []), ('__deepcopy__', [m.sym('memo', K_DICT)])):
        out, r = m.run(m.getattr(o, meth), a)
        m.prove('%s gives the object itself' % meth, out == 'return' and m.is_(r, o))
    m.prove('pickled by its name only', D.Sentinel not in D.Pickler.dispatch)
