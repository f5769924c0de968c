"""save_function on an arbitrary function, and what loading its pickle builds"""
from contracts.common import *

K_G = Kind('globals', pytype=dict, cons='ref', dictkinds=(K_STR, ANY))
K_FD = Kind('fdict', pytype=dict, cons='ref', dictkinds=(K_STR, ANY))


class MyDict(dict): pass


def fn_obj(m, closure=True, mod=None):
    """any function"""
    G = m.sym('globals', K_G)
    obj = m.alloc(types.FunctionType)
    d = {'__code__': m.sym('code', K_CODE), '__globals__': G, '__name__': m.sym('name', K_STR), '__qualname__': m.sym('qualname', K_STR),
         '__module__': m.force(m.sym('module', mod or OneOf(K_STR, K_NONE))), '__defaults__': m.sym('defaults', ANY), '__kwdefaults__': m.force(m.sym('kwdefaults', OneOf(K_FD, K_NONE))),
         '__annotations__': m.sym('annotations', K_FD), '__doc__': m.sym('doc', ANY), '__dict__': m.sym('fdict', K_FD),
         '__closure__': m.force(m.sym('closure', OneOf(Kind('closure', pytype=tuple, cons='ref', getitem=K_CELL), K_NONE))) if closure else NONE}
    m.attrs[obj.addr] = dict(d)
    rids = [V.rid(x.t) for x in (G, d['__annotations__'], d['__dict__'], d['__kwdefaults__']) if isinstance(x, S)]
    m.assume(z3.Distinct(*rids))
    return obj, d


class Env_(object): pass


def fn_env(m, closure=True, which=None, mod=None, recurse=None, plain=False, idle=False):
    """any function and pickler; everything save_function calls is taken by contract"""
    e = Env_()
    e.obj, e.d = fn_obj(m, closure, mod)
    if plain: e.d.update(__doc__=NONE, __kwdefaults__=NONE); m.attrs[e.obj.addr].update(e.d); m.assume(zstr(e.d['__name__']) != zstr(e.d['__qualname__']))
    e.G = e.d['__globals__']
    e.i = m.ctx.choose(3) if which is None else which
    m.overrides = dict(m.overrides)
    # pending objects, each with its list of deferred work
    e.deferred = []
    def append(mm, o, a, kw): e.deferred.append((o, a[0])); return NONE
    def remove(mm, o, a, kw):
        if not mm.ctx.choose(2): mm.raise_(ValueError, C('not in list'))
        e.removed.append((o, a[0])); return NONE
    e.removed = []
    K_L = Kind('deferred', pytype=list, cons='ref', methods={'append': append, 'remove': remove})
    e.e_key = z3.Int('pending')
    def pend_iter(mm, v):
        return Lazy(lambda m3: SInt(e.e_key))
    e.K_PP = Kind('postproc', pytype=dict, cons='ref', dictkinds=(K_INT, K_L), iter=pend_iter)
    if e.i < 2:
        e.pp = m.sym('postproc', e.K_PP) if not idle else m.new_dict()
        e.p = mk_pickler(m, e.i, _postproc=e.pp)
        if not idle: m.assume(z3.Not(OV.is_absent(z3.Select(m.dmap(e.pp).array(), term(SInt(e.e_key))))))
    else: e.pp = None; e.p = mk_pickler(m, 2)
    pa = m.attrs[e.p.addr]
    if recurse is not None and '_recurse' in pa: pa['_recurse'] = C(recurse)
    e.recurse = m.branch(pa['_recurse']) if '_recurse' in pa else False
    e.located = m.ctx.fresh('located', B)
    m.overrides[host_rid(D._locate_function)] = lambda mm, a, kw: (mm.prove('the function itself is looked up', mm.is_(a[0], e.obj)), SBool(e.located))[1]
    # the module that the function names
    e.mod = m.sym('importable', OneOf(Kind('module', isa=(types.ModuleType,), cons='ref', open=True, attrs={'__name__': K_STR, '__dict__': K_G}), K_NONE)); e.imports = []
    def imp(mm, a, kw):
        e.imports.append(a[0])
        mm.prove('the module is looked up without raising', len(a) > 1 and mm.truth(a[1]) or 'safe' in kw and mm.truth(kw['safe']))
        mm.prove('the module looked up is the recorded one', mm.eq(a[0], e.d['__module__']))
        return e.mod
    m.overrides[host_rid(D._import_module)] = imp
    e.gv = m.sym('reachable', K_G)
    def gvars(mm, a, kw):
        mm.prove('everything reachable is asked for', And(mm.is_(a[0], e.obj), mm.truth(a[1] if len(a) > 1 else kw.get('recurse', TRUE)), mm.truth(a[2] if len(a) > 2 else kw.get('builtin', FALSE))))
        e.asked = True
        return e.gv
    e.asked = False
    m.overrides[host_rid(DET.globalvars)] = gvars
    for x in (e.G, e.gv): m.assume(V.rid(x.t) != V.rid(e.pp.t) if isinstance(e.pp, S) else z3.BoolVal(True))
    m.assume(V.rid(e.gv.t) != V.rid(e.G.t))
    e.own = []
    def swp(mm, a, kw):
        names = ['pickler', 'reduction', 'is_pickler_dill', 'obj', 'postproc_list']
        d = dict(zip(names, a)); d.update(kw)
        red = mm.iterate(d['reduction']) + [NONE] * 4
        mm.trace.append(Ev('reduce', pickler=d['pickler'], obj=d.get('obj'), func=red[0], args=red[1], state=red[2], listitems=red[3], dictitems=red[4], state_setter=NONE))
        if e.i < 2:
            l = d.get('postproc_list', NONE)
            if l is not NONE: e.own += list(mm.lstate(l).items); mm.prove('deferred work is listed', mm.lstate(l).n is None)
        return NONE
    m.overrides[host_rid(D._save_with_postproc)] = swp
    # ids of the values of the globals: any set (which pending object is chosen does not matter)
    def hook(mm, x, fr):
        if not isinstance(x, (ast.SetComp, ast.ListComp)): return None
        src = mm.iterate(mm.eval(x.generators[0].iter, fr))
        if isinstance(src, list): return None
        s = mm.new_set(); mm.sets[s.addr].base = mm.ctx.fresh('ids', z3.ArraySort(V, B)); return s
    m.ghost['comp_hooks'] = [hook]
    # fills of cells of the closure that are deferred to the topmost pending object
    e.lifts = []
    def at_iter(mm, i, item, evs, out):
        evs = [x for x in evs if isinstance(x, Ev)]
        cells = [r for r in e.removed]
        mm.prove('a fill is written at once exactly if it was deferred and is not any more', len(cells) <= 1 and len(evs) == 2 * len(cells))
        if len(cells) != 1 or len(evs) != 2: return
        fill = cells[0][1]; its = mm.iterate(fill)
        mm.prove('the fill taken is the one of this cell with this function', len(its) == 2 and And(mm.is_(its[0], C(setattr))))
        a = mm.iterate(its[1])
        mm.prove('the fill taken is the one of this cell with this function', And(mm.is_(a[0], item), mm.eq(a[1], C('cell_contents')), mm.is_(a[2], e.obj)))
        ev, w = evs
        mm.prove('it is written once and its result dropped', ev.kind == 'reduce' and w.kind == 'write' and And(mm.eq(w.data, C(pickle.POP)), mm.is_(ev.func, C(setattr)), same(mm, ev.args, its[1])))
        mm.prove('the loop goes on', out == 'next')
        mm.cover('a deferred cell')
    m.loopspecs['save_function'] = [Iteration(at_iter, lambda mm, seq: None)]
    # a stored fill sets the items of the dictionary once (C14)
    m.overrides[host_rid(D._setitems)] = lambda mm, a, kw: (mm.env.dict_update(mm, a[0], a[1]), NONE)[1]
    return e


def run_fn(m, e, what='saving'):
    m.on_attr_write = None
    e.before = (m.dmap(e.G).array(), dict(m.attrs[e.obj.addr]), m.dmap(e.d['__dict__']).array(), m.dmap(e.d['__annotations__']).array())
    e.writes = []; m.on_attr_write = lambda v, name, x: e.writes.append((v, name))
    out, r = m.run(save_fn(types.FunctionType), [e.p, e.obj])
    m.on_attr_write = None
    m.prove('%s returns normally' % what, out == 'return')
    return out == 'return'


def unchanged(m, e):
    now = (m.dmap(e.G).array(), dict(m.attrs[e.obj.addr]), m.dmap(e.d['__dict__']).array(), m.dmap(e.d['__annotations__']).array())
    m.prove('the original function and its globals are not changed', And(now[0] == e.before[0], now[2] == e.before[2], now[3] == e.before[3],
            now[1].keys() == e.before[1].keys() and And(*[m.is_(now[1][k], e.before[1][k]) for k in now[1]]),
            not [w for w in e.writes if m.is_(w[0], e.obj) is not False]))


def load_fn(m, e, finish=True):
    """what loading builds; finish: deferred work done"""
    evs = reduces(m)
    evs = [x for x in events(m) if x.kind in ('reduce', 'global', 'save')][:1]
    m.prove('one value is written', len(evs) == 1 and evs[0].kind == 'reduce')
    if len(evs) != 1 or evs[0].kind != 'reduce': return None
    m.prove('memoised under the function', evs[0].obj is not None and m.is_(evs[0].obj, e.obj))
    ld = Loader(m)
    new = ld.event(evs[0])
    m.prove('a function is built', m.pytype(new) is types.FunctionType)
    if finish:
        for act in e.own + [a for o, a in e.deferred]:
            its = m.iterate(act)
            ld.build(its[0], its[1])
    e.ld = ld
    return new


@unit(['C02', 'C05'], 'closures', ['registered for FunctionType', 'dill._dill:_create_function'], covers=['with a closure'], max_paths=20000, seconds=400)
def closures(m):
    """a function with a closure of any length: its cells are passed on as they are, in order"""
    e = fn_env(m, mod=K_NONE, recurse=False, plain=True)
    m.assume(z3.Not(e.located))
    if not run_fn(m, e): return
    unchanged(m, e)
    new = load_fn(m, e)
    if new is None: return
    if m.branch(mkbool(m.is_(e.d['__closure__'], NONE))): m.prove('no closure', m.is_(m.getattr(new, '__closure__'), NONE)); return
    m.cover('with a closure')
    m.prove('the closure has the same cells', same(m, m.getattr(new, '__closure__'), e.d['__closure__']))
