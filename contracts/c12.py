from contracts.common import *

DT, PT, COPY = D.Pickler.dispatch, D.StockPickler.dispatch, D.pickle_dispatch_copy
CORE = z3.simplify(V.strv(z3.StringVal('dill._dill')))
K_FUNC = Kind('savefunc', cons='ref', open=True, attrs={'__module__': ANY})
K_KEY = Kind('type', isa=(type,), cons='ref', open=True)


def tables(m):
    """the three tables with arbitrary contents"""
    d, p, c = (m.ctx.fresh(n, DICT) for n in ('dill_table', 'pickle_table', 'original'))
    for h, a in ((DT, d), (PT, p), (COPY, c)): m.dicts[host_rid(h)] = DMap(a, (), K_KEY, K_FUNC)
    return d, p, c


def arr(m, h): return m.dmap(C(h)).array()


def by_core(v): return attr_val('__module__', 0)(V.rid(v)) == CORE


def extended(d, p):
    k = z3.Const('ek', V)
    return z3.Lambda([k], z3.If(OV.is_some(z3.Select(d, k)), z3.Select(d, k), z3.Select(p, k)))


def reverted_at(p, c, k):
    """what the entry of a type becomes when the extension is reverted"""
    e = z3.Select(p, k)
    return z3.If(z3.And(OV.is_some(e), by_core(OV.val(e))), z3.Select(c, k), e)


def reverted(p, c):
    k = z3.Const('ek', V)
    return z3.Lambda([k], reverted_at(p, c, k))


def at(a, k): return z3.simplify(z3.Select(a, k))


class Table(Iteration):
    """loop over the items of a table, one entry at a time: entries already visited hold their final value, the others their first"""
    def __init__(self, target, final_at, orig, final, label):
        done = {}
        def before_iter(m, i, seq):
            d = done['set'] = m.ctx.fresh('done', SETS); k = z3.Const('ek', V)
            item = seq.get(i)
            done['key'] = term(item.items[0] if isinstance(item, T) else item)
            m.assume(Not(z3.Select(d, done['key'])))
            m.dicts[host_rid(target)] = DMap(z3.Lambda([k], z3.If(z3.Select(d, k), final_at(k), z3.Select(orig, k))), (), K_KEY, K_FUNC)
        def at_iter(m, i, item, evs, out):
            m.cover('an entry')
            k = m.ctx.fresh('k', V)
            m.prove('%s: no entry ends the others' % label, out == 'next')
            m.prove('%s: the entry gets its final value, every other entry is left alone' % label,
                    at(m.dmap(C(target)).array(), k) == z3.simplify(z3.If(z3.Or(z3.Select(done['set'], k), k == done['key']), final_at(k), z3.Select(orig, k))))
            for h, a in self.others.items():
                m.prove('%s: the other tables are left alone' % label, at(m.dmap(C(self.hosts[h])).array(), k) == z3.Select(a, k))
        def after(m, seq): m.dicts[host_rid(target)] = DMap(final, (), K_KEY, K_FUNC)
        Iteration.__init__(self, at_iter, after, None, before_iter)
        self.others, self.hosts = {}, {}
    def keep(self, *pairs):
        for h, a in pairs: self.others[id(h)] = a; self.hosts[id(h)] = h
        return self


def loops(m, d, p, c):
    ext = Table(PT, lambda k: z3.If(OV.is_some(z3.Select(d, k)), z3.Select(d, k), z3.Select(p, k)), p, extended(d, p), 'extending').keep((DT, d), (COPY, c))
    rev = Table(PT, lambda k: reverted_at(p, c, k), p, reverted(p, c), 'reverting').keep((DT, d), (COPY, c))
    m.loopspecs['_extend'] = [ext]; m.loopspecs['_revert_extension'] = [rev]


@unit('C12', 'extend', ['dill:extend', 'dill._dill:_extend', 'dill._dill:_revert_extension'], covers=['on', 'off', 'an entry'])
def extend(m):
    """both directions, for tables of any contents and size"""
    d, p, c = tables(m)
    loops(m, d, p, c)
    n = m.ctx.choose(2)
    use = m.sym('use_dill', K_BOOL) if n else None
    out, r = m.run(dill.extend, [use] if n else [])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    on = m.branch(use) if n else True
    k = m.ctx.fresh('k', V)
    now = at(arr(m, PT), k)
    if on:
        m.cover('on')
        m.prove('every entry of dill is in pickle\'s table, the other entries of pickle are left alone', now == at(extended(d, p), k))
    else:
        m.cover('off')
        m.prove('functions of the core module are replaced by the original ones or removed, the others are left alone', now == at(reverted(p, c), k))
    m.prove('dill\'s table is left alone', at(arr(m, DT), k) == at(d, k))
    m.prove('the record of the original functions is left alone', at(arr(m, COPY), k) == at(c, k))


def registered(m, d, p, t, f):
    m.prove('exactly that type is bound to exactly that function, every other entry is left alone', arr(m, DT) == z3.Store(d, term(t), OV.some(term(f))))
    m.prove('pickle\'s table is left alone', arr(m, PT) == p)


@unit('C12', 'register', ['dill._dill:register'], covers=['registered'])
def register(m):
    d, p, c = tables(m)
    t, f = m.sym('t', K_KEY), m.sym('func', K_FUNC)
    out, deco = m.run(D.register, [t])
    m.prove('gives a decorator and registers nothing yet', out == 'return' and arr(m, DT) == d)
    if out != 'return': return
    out, r = m.run(deco, [f])
    m.prove('the function is returned unchanged', out == 'return' and m.is_(r, f))
    m.cover('registered')
    registered(m, d, p, t, f)
    m.prove('nothing of the function changes', not any(x for x in m.attrs if isinstance(x, tuple) and z3.eq(x[1], f.t)))
    m.prove('the record of the original functions is left alone', arr(m, COPY) == c)


@unit('C12', 'pickle', ['dill._dill:pickle'], covers=['registered'])
def pickle_(m):
    d, p, c = tables(m)
    t, f = m.sym('t', K_KEY), m.sym('func', K_FUNC)
    out, r = m.run(D.pickle, [t, f])
    m.prove('returns normally', out == 'return')
    m.cover('registered')
    registered(m, d, p, t, f)


@unit('C12', 'lookup', ['dill._dill:MetaCatchingDict'], covers=['registered', 'metaclass', 'other'])
def lookup(m):
    """registered: its function; unregistered metaclass: the class-saving function; otherwise the default (or KeyError by subscription)"""
    d, p, c = tables(m)
    t, dflt = m.sym('t', K_KEY), m.sym('default', ANY)
    how = m.ctx.choose(3)
    if how == 2: out, r = m.run(m.getattr(C(DT), '__getitem__'), [t])
    else: out, r = m.run(m.getattr(C(DT), 'get'), [t] + ([dflt] if how else []))
    there = m.dget(C(DT), t)
    if there is not ABSENT:
        m.cover('registered'); m.prove('the registered function', out == 'return' and m.is_(r, there))
    elif m.branch(m.call(C(issubclass), [t, C(type)], {})):
        m.cover('metaclass'); m.prove('classes of an unregistered metaclass are saved as classes', out == 'return' and m.is_(r, C(save_fn(type))))
    elif how == 2: m.prove('KeyError for any other type', out == 'raise' and m.pytype(r) is KeyError)
    else:
        m.cover('other'); m.prove('the default for any other type', out == 'return' and m.is_(r, dflt if how else NONE))
    m.prove('a lookup registers nothing', arr(m, DT) == d)
