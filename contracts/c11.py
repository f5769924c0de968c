from contracts.common import *

SET = D.Pickler.settings


def unpickler(m, cls=D.Unpickler):
    u = m.alloc(cls)
    main = m.sym('main', K_MODULE)
    m.attrs[u.addr] = {'_main': main, '_ignore': m.sym('ignore', ANY)}
    return u, main


@unit(['C11', 'C06', 'C29'], 'find_class', ['dill._dill:Unpickler.find_class'], covers=['main dictionary', 'NoneType', 'old path', 'any other'])
def find_class(m):
    """every (module, name) pair of strings"""
    u, main = unpickler(m)
    asked = []
    def stock(mm, a, kw):
        asked.append((a[1:], kw))
        if mm.ctx.choose(2): raise PyRaise(mm.sym_exc('lookup_failed'))
        r = mm.sym('found', ANY); asked[-1] += (r,); return r
    m.overrides = dict(m.overrides); m.overrides[host_rid(D.StockUnpickler.find_class)] = stock
    mod, name = m.sym('module', K_STR), m.sym('name', K_STR)
    before = m.dmap(m.getattr(main, '__dict__')).array()
    out, r = m.run(D.Unpickler.find_class, [u, mod, name])
    def is_str(v, s): return m.branch(mkbool(m.eq(v, C(s))))
    if is_str(mod, '__builtin__') and is_str(name, '__main__'):
        m.cover('main dictionary')
        m.prove("the main module's own dictionary", out == 'return' and m.is_(r, m.getattr(main, '__dict__')))
        return
    if is_str(mod, '__builtin__') and is_str(name, 'NoneType'):
        m.cover('NoneType')
        m.prove('the type of None', out == 'return' and m.is_(r, C(type(None))))
        return
    old = is_str(mod, 'dill.dill')
    m.cover('old path' if old else 'any other')
    m.prove('asked of pickle, once', len(asked) == 1 and len(asked[0][0]) == 2 and not asked[0][1])
    if len(asked) != 1 or len(asked[0][0]) != 2: return
    m.prove('with the module and name stored (the former path of the core module is translated)',
            And(m.eq(asked[0][0][0], C('dill._dill') if old else mod), m.eq(asked[0][0][1], name)))
    if len(asked[0]) > 2: m.prove("pickle's answer is returned", out == 'return' and m.is_(r, asked[0][2]))
    else: m.prove("pickle's failure is passed on", out == 'raise')
    m.prove('the main module is left alone', m.dmap(m.getattr(main, '__dict__')).array() == before)


@unit('C11', 'load', ['dill._dill:Unpickler.load'], covers=['re-bound', 'ignored', 'not of main', 'no such class', 'unusable class'])
def load(m):
    """any object, any class, any main module"""
    u, main = unpickler(m)
    themain = m.sym('main_module', Kind('mainmodule', base=K_MODULE))
    m.attrs.setdefault(host_rid(D), {})['_main_module'] = themain
    sets = []
    def set_(mm, v, name, x):
        sets.append((name, x))
        k = mm.ctx.choose(3)
        sets[-1] += (k,)
        if k: mm.raise_((TypeError, AttributeError)[k - 1], C('object layout differs'))
        return True
    K = Kind('loaded', cons='ref', open=True, setattr=set_)
    obj = m.sym('obj', K)
    def stock(mm, a, kw):
        mm.trace.append('loaded'); return obj
    m.overrides = dict(m.overrides); m.overrides[host_rid(D.StockUnpickler.load)] = stock
    t = m.type_val(obj)
    m.setkind(t.t, Kind('itstype', isa=(type,), cons='ref', attrs={'__module__': ANY, '__name__': K_STR}))
    m.assume(z3.And(V.is_ref(t.t), V.rid(t.t) >= 0))
    writes = []
    m.on_attr_write = lambda v, name, x: writes.append((v, name))
    out, r = m.run(D.Unpickler.load, [u])
    m.on_attr_write = None
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('unpickled once', m.trace.count('loaded') == 1)
    m.prove('the object itself is returned', m.is_(r, obj))
    m.prove('nothing else is written to', not writes)
    mainname = m.getattr(themain, '__name__')
    if not m.branch(mkbool(m.eq(m.getattr(t, '__module__'), mainname))):
        m.cover('not of main'); m.prove('an object of another module is left alone', not sets); return
    if m.branch(m.getattr(u, '_ignore')):
        m.cover('ignored'); m.prove('left alone if ignore is set', not sets); return
    try: target = m.call(C(getattr), [main, m.getattr(t, '__name__')], {})
    except PyRaise:
        m.cover('no such class'); m.prove('left alone if there is no class of that name', not sets); return
    m.prove('re-pointed to the class of that name in the main module', len(sets) == 1 and sets[0][0] == '__class__' and m.is_(sets[0][1], target))
    m.cover('re-bound' if sets and not sets[0][2] else 'unusable class')
