from contracts.common import *

K_PP = Kind('postproc', pytype=dict, cons='ref', dictkinds=(K_INT, K_LIST))
def memo_entry(m, t):
    v = m.as_kind(t, Kind('memoentry', pytype=tuple, cons='ref', getitem=ANY))
    m.assume(tlen(V.rid(t)) == 2)
    return v
K_MEMO = Kind('memo', pytype=dict, cons='ref', dictkinds=(K_INT, lambda m, k: memo_entry))
K_SRC = Kind('source', pytype=dict, cons='ref')
is_fill = ufun('entry_is_setitems', I, B)
e_func, e_args, e_dest, e_src = (ufun('entry_' + n, I, V) for n in ('func', 'args', 'dest', 'source'))
K_PEND = Kind('pendingobj', cons='ref', open=True, attrs={'__name__': K_STR, '__module__': K_STR})


def deferred_list(m):
    """a list of any length of deferred actions"""
    n = m.ctx.fresh('n', I); m.assume(n >= 0)
    def get(i):
        if isinstance(i, int): i = z3.IntVal(i)
        if m.ctx.branch(is_fill(i)):
            d = m.as_kind(e_dest(i), K_DICT); s = m.as_kind(e_src(i), K_SRC)
            return T([C(D._setitems), T([d, s])])
        f = m.as_kind(e_func(i), ANYREF); a = m.as_kind(e_args(i), K_TUPLE)
        return T([f, a])
    o = m.alloc(list); m.lists[o.addr] = LState([], n, get)
    return o


def setup(m, which):
    obj = m.sym('obj', K_PEND)
    red = T([m.sym('func', ANYREF), m.sym('args', K_TUPLE)])
    if which == 2:
        p = mk_pickler(m, 2)
        return obj, red, p, None
    pp = m.sym('postproc', K_PP)
    memo = m.sym('memo', K_MEMO)
    p = mk_pickler(m, which, _postproc=pp, memo=memo)
    m.assume(Not(m.is_(memo, pp)))
    return obj, red, p, pp


@unit('C14', 'pending protocol', ['dill._dill:_save_with_postproc'], covers=['done', 'an action'])
def protocol(m):
    """registered while saved; afterwards unregistered, each deferred action written exactly once, last first (any number)"""
    obj, red, p, pp = setup(m, m.ctx.choose(2))
    oid = m.call(C(id), [obj], {})
    before = m.dmap(pp).array()
    m.assume(OV.is_absent(z3.Select(before, term(oid))))
    given = m.ctx.choose(2)
    lst = deferred_list(m) if given else NONE
    st = {}
    def on_save(mm, ev):
        if 'n' in st: return
        cur = mm.dget(pp, oid)
        mm.prove('registered as pending under its identity while it is saved', cur is not ABSENT and (not given or And(mm.is_(cur, lst))))
        st['n'] = 1
        if cur is ABSENT: raise PathEnd('not registered')
        if not given:
            l = deferred_list(mm); mm.lists[mm.key(cur)] = mm.lists.pop(l.addr)
        st['lst'] = cur
        l = mm.lstate(cur)
        n2 = mm.ctx.fresh('n2', I); mm.assume(n2 >= l.n); l.n = n2     # nested saves may defer more work to it
        st['len'] = n2; st['get'] = l.get
    m.ghost['on_save'] = on_save
    memo = m.attrs[p.addr]['memo']
    def before_iter(mm, i, seq): pass
    def at_iter(mm, i, item, evs, out):
        mm.cover('an action')
        mm.prove('unregistered before its deferred actions are written (they may defer work of their own)', mm.dget(pp, oid) is ABSENT)
        want = st['get'](st['len'] - 1 - i)
        mm.prove('actions are taken from the last to the first', same(mm, item, want))
        mm.prove('no action ends the others', out == 'next')
        fill = mm.ctx.branch(is_fill(st['len'] - 1 - i))
        es = [e for e in evs if isinstance(e, Ev)]
        if fill:
            src = want.items[1].items[1]; dest = want.items[1].items[0]
            if not mm.branch(src):
                mm.prove('an empty fill writes nothing', not es); return
            mm.prove('a fill fetches the dictionary, sets its items once and pops it', len(es) == 3 and [e.kind for e in es] == ['write', 'setitems', 'write'])
            g = es[0].data
            idx = mm.objs[g.addr].name[1] if isinstance(g, O) else NONE
            e = mm.getitem(memo, mm.call(C(id), [dest], {}))
            mm.prove('the fetched object is the dictionary to fill', And(mm.is_(idx, mm.getitem(e, C(0)))))
            its = mm.iterate(es[1].items)
            mm.prove('all items of the source are set', isinstance(its, Seq) and its.src[:1] == ('dict',) and its.src[2] == 'items' and z3.eq(its.src[1], mm.dmap(src).array()))
            mm.prove('popped', isinstance(es[2].data, C) and es[2].data.v == pickle.POP)
        else:
            mm.prove('the action is written once and its result popped', len(es) == 2 and es[0].kind == 'reduce' and es[1].kind == 'write')
            mm.prove('it is this action', And(same(mm, es[0].func, want.items[0]), same(mm, es[0].args, want.items[1])))
            mm.prove('the result is not memoised', es[0].obj is None or es[0].obj is NONE)
            mm.prove('its result is popped', isinstance(es[1].data, C) and es[1].data.v == pickle.POP)
    def after(mm, seq): mm.trace.append(Ev('all actions', n=seq.n, src=seq.src))
    m.loopspecs['_save_with_postproc'] = [Iteration(at_iter, after)]
    # the memo knows every dictionary to fill (it was saved as part of the reduction)
    m.attrs[p.addr]['memo'] = memo
    q = z3.Int('q')
    m.assume(z3.ForAll([q], z3.Implies(is_fill(q), OV.is_some(z3.Select(m.dmap(memo).array(), V.intv(idof(e_dest(q))))))))
    kw = {'obj': obj}
    if given: kw['postproc_list'] = lst
    ipd = m.ctx.choose(2)
    if ipd: kw['is_pickler_dill'] = TRUE
    out, r = m.run(D._save_with_postproc, [p, red], kw)
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('done')
    es = events(m)
    m.prove('the reduction is written first, once, memoised under the object',
            len(es) >= 1 and es[0].kind == 'reduce' and And(same(m, es[0].func, red.items[0]), same(m, es[0].args, red.items[1]), es[0].obj is not None and m.is_(es[0].obj, obj)))
    m.prove('then every deferred action', len(es) == 2 and es[1].kind == 'all actions' and And(es[1].n == st['len']) or len(es) == 1 and And(st['len'] == 0))
    m.prove('no longer pending, everything else as before', m.dmap(pp).array() == before)


@unit('C14', 'already pending', ['dill._dill:_save_with_postproc'], covers=['warned'])
def pending(m):
    """an object that is already pending is written as a reference, with a warning; nothing else changes"""
    obj, red, p, pp = setup(m, m.ctx.choose(2))
    oid = m.call(C(id), [obj], {})
    before = m.dmap(pp).array()
    m.assume(OV.is_some(z3.Select(before, term(oid))))
    kw = {'obj': obj}
    if m.ctx.choose(2): kw['postproc_list'] = deferred_list(m)
    out, r = m.run(D._save_with_postproc, [p, red], kw)
    m.prove('returns normally', out == 'return')
    es = events(m)
    m.cover('warned')
    m.prove('a PicklingWarning is issued', sum(1 for e in m.trace if isinstance(e, tuple) and e[0] == 'warn' and isinstance(e[2], C) and e[2].v is D.PicklingWarning) == 1)
    m.prove('written as a reference only', len(es) == 1 and es[0].kind in ('global', 'save_global') and m.is_(es[0].obj, obj))
    m.prove('pending objects unchanged', m.dmap(pp).array() == before)


@unit('C14', 'other picklers', ['dill._dill:_save_with_postproc'], covers=['done'])
def other(m):
    """with a non-dill pickler nothing is registered or deferred: the reduction alone is written"""
    obj, red, p, _ = setup(m, 2)
    kw = {'obj': obj}
    if m.ctx.choose(2): kw['postproc_list'] = deferred_list(m)
    out, r = m.run(D._save_with_postproc, [p, red], kw)
    m.prove('returns normally', out == 'return')
    es = events(m)
    m.cover('done')
    m.prove('the reduction alone is written', len(es) == 1 and es[0].kind == 'reduce' and And(same(m, es[0].func, red.items[0]), same(m, es[0].args, red.items[1]), m.is_(es[0].obj, obj)))
