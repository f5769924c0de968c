from contracts.common import *
import dis, inspect

EMPTY = lambda c: z3.Not(cell_full(V.rid(c)))
CONT = lambda m, c: attr_val('cell_contents', m.epoch)(V.rid(c))
K_CELL20 = K_CELL


def a_code(m, name='code', **attrs):
    return m.sym(name, Kind(name, pytype=types.CodeType, cons='ref', attrs=attrs))


def a_function(m, **attrs):
    f = m.alloc(types.FunctionType); c = a_code(m)
    m.attrs[f.addr] = dict({'__code__': c, '__closure__': NONE, '__globals__': m.sym('globals', Kind('globals', pytype=dict, cons='ref', dictkinds=(K_STR, ANY)))}, **attrs)
    return f, m.attrs[f.addr]['__code__']


def a_method(m, f):
    o = m.alloc(types.MethodType); m.attrs[o.addr] = {'__func__': f, '__self__': m.sym('self', ANY)}; return o


def something_else(m):
    k = m.ctx.choose(6)
    if k == 5: return m.sym('other', Kind('other', cons='ref', nota=(types.FunctionType, types.MethodType, types.CodeType, types.FrameType, types.TracebackType)))
    return (NONE, m.sym('number', K_INT), m.sym('text', K_STR), C(len), C(list))[k]


@unit('C20', 'code', ['dill.detect:code'], covers=['function', 'method', 'method of something else', 'frame', 'traceback', 'code', 'anything else'])
def code_(m):
    """the code object underlying it, or None"""
    f, c = a_function(m)
    fr = m.alloc(types.FrameType); m.attrs[fr.addr] = {'f_code': c}
    tb = m.alloc(types.TracebackType); m.attrs[tb.addr] = {'tb_frame': fr}
    which = ('function', 'method', 'method of something else', 'frame', 'traceback', 'code', 'anything else')[m.ctx.choose(7)]
    x, want = {'function': (f, c), 'method': (a_method(m, f), c), 'frame': (fr, c), 'traceback': (tb, c), 'code': (c, c)}.get(which, (None, NONE))
    if which == 'method of something else': x = a_method(m, C(len))
    if x is None: x = something_else(m)
    m.cover(which)
    out, r = m.run(DET.code, [x])
    m.prove('returns normally', out == 'return')
    if out == 'return': m.prove('the underlying code object, or None', m.is_(r, want))


@unit('C20', 'varnames', ['dill.detect:varnames'], covers=['code', 'none'])
def varnames(m):
    """the local and the cell variables of the underlying code, or nothing"""
    x = m.sym('x', ANY); names = [m.sym('varnames', ANYREF), m.sym('cellvars', ANYREF)]
    c = a_code(m, co_varnames=names[0], co_cellvars=names[1]); has = m.ctx.choose(2)
    m.overrides = dict(m.overrides); m.overrides[host_rid(DET.code)] = lambda mm, a, kw: (mm.prove('of what is given', mm.is_(a[0], x)), c if has else NONE)[1]
    out, r = m.run(DET.varnames, [x])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    got = m.finite(r)
    if has: m.cover('code'); m.prove('local variables and cell variables', And(len(got) == 2, *[m.is_(g, n) for g, n in zip(got, names)]))
    else: m.cover('none'); m.prove('nothing', len(got) == 0)


class Cells:
    """the loop over closure variables, possibly in a generator"""
    def __init__(self, m, n, names, cells):
        self.n, self.names, self.cells = n, names, cells
        self.k1, self.v1 = m.sym('a_name', K_STR), m.sym('a_value', ANY)
    def matches(self, m, s, fr): return isinstance(s, ast.For)
    def run_for(self, m, s, fr, seq):
        if not (seq.src and seq.src[0] == 'zip') or fr.on_yield is None: raise Unsupported('the closure is gone through in another way')
        keep, out = fr.on_yield, []
        if m.ctx.choose(2):
            fr.on_yield = lambda v: out.append(v) or NONE
            i = m.ctx.fresh('i', I); m.assume([i >= 0, i < self.n])
            m.assign(s.target, seq.get(i), fr)
            try: m.exec_body(s.body, fr)
            except ContinueExc: pass
            c = z3.Select(self.cells, i)
            if m.ctx.branch(EMPTY(c)): m.cover('an empty cell'); m.prove('empty cells are left out', not out)
            else:
                m.cover('a full cell'); m.prove('one entry for each variable', len(out) == 1)
                if len(out) == 1:
                    k, v = m.unpack(out[0], 2)
                    m.prove('its name', m.eq(k, SStr(z3.Select(self.names, i)))); m.prove('its current value', term(v) == CONT(m, c))
            raise PathEnd('an arbitrary variable')
        keep(T([self.k1, self.v1]))       # what was proved of each holds of an arbitrary one


@unit('C20', 'freevars', ['dill.detect:freevars'], covers=['an empty cell', 'a full cell', 'the dictionary', 'no closure', 'anything else'])
def freevars(m):
    """any number of closure variables: each non-empty one, by its name, with its current value, and nothing else"""
    n = m.ctx.fresh('nfree', I); m.assume(n >= 0)
    names, cells = m.ctx.fresh('names', z3.ArraySort(I, STR)), m.ctx.fresh('cells', z3.ArraySort(I, V))
    kind = m.ctx.choose(4)
    if kind == 3:
        m.cover('anything else'); out, r = m.run(DET.freevars, [something_else(m)])
        m.prove('nothing', out == 'return' and m.pytype(r) is dict and not m.dict_keys_list(r)); return
    f, c = a_function(m)
    fv = m.sym('free', Kind('free', pytype=tuple, cons='ref', iter=lambda mm, v: Seq(n, lambda i: SStr(z3.Select(names, i))), length=lambda mm, v: n))
    cl = m.sym('closure', Kind('closure', pytype=tuple, cons='ref', iter=lambda mm, v: Seq(n, lambda i: mm.as_kind(z3.Select(cells, i), K_CELL20)), length=lambda mm, v: n, truth=lambda mm, v: n > 0))
    m.kind(c).attrs['co_freevars'] = fv
    if kind == 2: m.assume(n == 0); m.kind(c).attrs['co_freevars'] = T([])
    m.attrs[f.addr]['__closure__'] = NONE if kind == 2 else cl
    if kind < 2: m.assume(n > 0)
    st = Cells(m, n, names, cells)
    m.loopspecs['get_cell_contents'] = m.loopspecs['freevars'] = [st]
    out, r = m.run(DET.freevars, [a_method(m, f) if kind == 1 else f])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    ks = m.dict_keys_list(r)
    if kind == 2: m.cover('no closure'); m.prove('no variables', len(ks) == 0); return
    m.cover('the dictionary')
    m.prove('exactly the entries found', And(len(ks) == 1, m.is_(ks[0], st.k1), m.is_(m.dget(r, st.k1), st.v1)))


class OverSet:
    """an arbitrary round of a loop that only adds to sets and dictionaries"""
    def __init__(self, matches, seq_ok, state, item, each, summary): self._m, self.seq_ok, self.state, self.item, self.each, self.summary = matches, seq_ok, state, item, each, summary
    def matches(self, m, s, fr): return self._m(m, s, fr)
    def run_for(self, m, s, fr, seq):
        if not self.seq_ok(m, seq): raise Unsupported('another loop')
        st = self.state(m, fr)
        if m.ctx.choose(2):
            before = {k: havoc(m, o) for k, o in st.items()}
            x = self.item(m, seq); m.assign(s.target, x, fr)
            try: m.exec_body(s.body, fr)
            except ContinueExc: pass
            except BreakExc: m.prove('the loop goes on', False)
            self.each(m, x, before, {k: contents(m, o) for k, o in st.items()})
            raise PathEnd('an arbitrary round')
        before = {k: contents(m, o) for k, o in st.items()}
        after = {k: havoc(m, o) for k, o in st.items()}
        self.summary(m, before, after)
        m.exec_body(s.orelse, fr)


def contents(m, o): return m.sstate(o).array() if m.pytype(o) in (set, frozenset) else m.dmap(o).array()
def havoc(m, o):
    if m.pytype(o) is set: a = m.ctx.fresh('set', SETS); m.sets[m.key(o, m.sets)] = SState(a, [])
    else: a = m.ctx.fresh('dict', z3.ArraySort(V, OV)); m.dicts[m.key(o, m.dicts)] = DMap(a, (), K_STR, ANY)
    return a


def arrset(mm, a, kw):
    if a and isinstance(a[0], O) and mm.pytype(a[0]) is list and isinstance(mm.lstate(a[0]).arr, tuple):
        s = mm.new_set(); mm.sets[mm.key(s, mm.sets)] = SState(mm.lstate(a[0]).arr[1], []); return s
    s = mm.new_set()
    for v in (mm.finite(a[0]) if a else []): mm.set_add(s, v)
    return s


@unit('C20', 'nestedcode', ['dill.detect:nestedcode'], covers=['not code', 'None', 'not a code object', 'code', 'all', 'directly'])
def nestedcode(m):
    """any number of constants: each code object among them, with all nested in it if recursing, and nothing else"""
    recurse = m.ctx.choose(2)
    NEST = lambda c: ufun('nested_in', V, SETS)(c)
    n = m.ctx.fresh('nconsts', I); m.assume(n >= 0); at = z3.Function('const_at', I, V); CODE = z3.Function('is_code', V, z3.BoolSort())
    seq = Seq(n, lambda i: m.as_kind(at(i), ANY))
    consts = m.sym('consts', Kind('consts', pytype=tuple, cons='ref', iter=lambda mm, v: seq))
    top = a_code(m, 'top', co_consts=consts); x = m.sym('x', ANY); isco = m.ctx.choose(2)
    m.overrides = dict(m.overrides)
    def code(mm, a, kw):
        if mm.is_(a[0], x) is True: return top if isco else NONE
        t = term(a[0])
        mm.assume(z3.Implies(CODE(t), z3.And(V.is_ref(t), z3.Not(t == top.t))))
        return mm.as_kind(t, Kind('constcode', pytype=types.CodeType, cons='ref')) if mm.ctx.branch(CODE(t)) else NONE
    m.overrides[host_rid(DET.code)] = code
    def rec(mm, a, kw):
        mm.prove('all those nested in it are asked for', mm.truth(a[1] if len(a) > 1 else kw.get('recurse', TRUE)))
        r = mm.alloc(list); mm.lists[r.addr] = LState([], mm.ctx.fresh('n', I), None, ('setlist', NEST(term(a[0])))); return r
    m.overrides[host_rid(set)] = arrset
    k, w = m.ctx.fresh('any', V), m.ctx.fresh('w', I)
    def state(mm, fr):
        sets = {v_n: v for v_n, v in fr.vars.items() if isinstance(v, O) and mm.pytype(v) is set}
        if len(sets) != 1: raise Unsupported('the result is kept in another way')
        o, = sets.values(); return {'set': o}
    def item(mm, sq):
        i = mm.ctx.fresh('i', I); mm.assume([i >= 0, i < n]); mm.ghost['at'] = i
        mm.overrides = dict(mm.overrides); mm.overrides[host_rid(DET.nestedcode)] = rec
        return sq.get(i)
    def each(mm, xx, b, a):
        t = term(xx); was, now = z3.Select(b['set'], k), z3.Select(a['set'], k)
        mm.cover('None') if mm.ctx.branch(V.is_none(t)) else mm.cover('code') if mm.ctx.branch(CODE(t)) else mm.cover('not a code object')
        mm.prove('exactly what is nested there is added', now == z3.Or(was, z3.And(CODE(t), V.is_ref(t), z3.Or(k == t, z3.BoolVal(bool(recurse)) if not recurse else z3.Select(NEST(t), k)))))
    def summary(mm, b, a): mm.ghost['sum'] = (b['set'], a['set'])
    m.loopspecs['nestedcode'] = [OverSet(lambda mm, s, fr: isinstance(s, ast.For), lambda mm, sq: sq is seq, state, item, each, summary)]
    out, r = m.run(DET.nestedcode, [x] + ([] if recurse and m.ctx.choose(2) else [C(bool(recurse))]))
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    if not isco: m.cover('not code'); m.prove('an empty list', m.pytype(r) is list and len(m.finite(r)) == 0); return
    m.cover('all' if recurse else 'directly')
    b, a = m.ghost['sum']
    m.prove('nothing at first', z3.Not(z3.Select(b, k)))
    ls = m.lstate(r) if m.pytype(r) is list else None
    m.prove('the list of those found', ls is not None and isinstance(ls.arr, tuple) and ls.arr[0] == 'setlist' and ls.arr[1].eq(a))


def names_list(m, arr):
    r = m.alloc(list); m.lists[r.addr] = LState([], m.ctx.fresh('n', I), None, ('setlist', arr)); return r


def globals_env(m, func, code):
    """what globalvars calls, by contract"""
    e = type('E', (), {})()
    e.recurse, e.builtin = m.ctx.choose(2), m.ctx.choose(2)
    DK = Kind('namespace', pytype=dict, cons='ref', dictkinds=(K_STR, ANY))
    e.B = m.sym('builtins', DK); e.NG, e.CN = m.ctx.fresh('loaded', SETS), m.ctx.fresh('co_names', SETS)
    e.RG = lambda t: ufun('found_from', V, z3.ArraySort(V, OV))(t)
    e.k = term(m.sym('any_name', K_STR)); e.CL, e.REC = z3.Function('in_closure', V, z3.BoolSort()), z3.Function('from_names', V, z3.BoolSort())
    m.kind(code).attrs['co_names'] = m.sym('names', Kind('names', pytype=tuple, cons='ref', iter=lambda mm, v: Seq(mm.ctx.fresh('n', I), None, ('setarr', e.CN))))
    m.kind(code).attrs['co_name'] = m.sym('co_name', K_STR)
    m.overrides = dict(m.overrides); ov = m.overrides
    bm = m.sym('builtins_module', ANYREF)
    ov[host_rid(DET.getmodule)] = lambda mm, a, kw: bm
    def vars_(mm, a, kw):
        if mm.is_(a[0], bm) is True: return e.B
        raise Unsupported('vars of something else')
    ov[host_rid(vars)] = vars_; ov[host_rid(set)] = arrset
    def nested(mm, a, kw):
        mm.prove('the names loaded by its own code', Or(mm.is_(a[0], func), mm.is_(a[0], code)))
        mm.prove('and by all code nested in it', mm.truth(a[1] if len(a) > 1 else kw.get('recurse', TRUE)))
        return names_list(mm, e.NG)
    ov[host_rid(DET.nestedglobals)] = nested
    e.calls = []
    def rec(mm, a, kw):
        names = ['func', 'recurse', 'builtin']; d = dict(zip(names, a)); d.update(kw)
        mm.prove('as deep as asked for', mm.truth(d.get('recurse', TRUE)) == bool(e.recurse)); mm.prove('with the builtins if asked for', mm.truth(d.get('builtin', FALSE)) == bool(e.builtin))
        e.calls.append(d['func']); t = term(d['func'])
        r = mm.new_dict(); mm.dicts[mm.key(r, mm.dicts)] = DMap(e.RG(t), (), K_STR, ANY)
        mm.assume([z3.Implies(V.is_none(t), OV.is_absent(z3.Select(e.RG(t), e.k)))]); return r
    e.rec = lambda mm: (setattr(mm, 'overrides', dict(mm.overrides)), mm.overrides.__setitem__(host_rid(DET.globalvars), rec))
    def state(mm, fr):
        pick = lambda t, no: [v for n, v in fr.vars.items() if isinstance(v, O) and mm.pytype(v) is t and not any(mm.is_(v, x) is True for x in no)]
        ss, ds = pick(set, []), pick(dict, [])
        if len(ss) != 1 or len(ds) != 1: raise Unsupported('names and values are kept in another way')
        return {'set': ss[0], 'dict': ds[0]}
    e.state = state; e.kw = term(m.sym('a_found_name', K_STR))
    def item2(mm, sq):
        key = mm.sym('key', K_STR); mm.assume(z3.Select(mm.sstate(sq.src[1]).array(), term(key))); e.rec(mm); e.calls.clear(); return key
    def each2(mm, x, b, a):
        o = z3.Select(b['dict'], term(x)); v = z3.If(OV.is_absent(o), V.none, OV.val(o)); k = e.k
        skip = z3.Or(v == term(func) if isinstance(func, (S, O)) else False, term(x) == term(mm.kind(code).attrs['co_name']))
        mm.prove('what the object of that name refers to is added', z3.Or(z3.And(skip, z3.Select(a['set'], k) == z3.Select(b['set'], k)),
                 z3.Select(a['set'], k) == z3.Or(z3.Select(b['set'], k), OV.is_some(z3.Select(e.RG(v), k)))))
        mm.prove('the values stay', z3.Select(a['dict'], k) == z3.Select(b['dict'], k)); mm.cover('a name followed')
    def sum2(mm, b, a):
        k = e.k; s0, s1 = z3.Select(b['set'], k), z3.Select(a['set'], k); o = z3.Select(b['dict'], e.kw)
        v = z3.If(OV.is_absent(o), V.none, OV.val(o)); skip = z3.Or(v == term(func) if isinstance(func, (S, O)) else False, e.kw == term(mm.kind(code).attrs['co_name']))
        e.followed = z3.And(z3.Select(b['set'], e.kw), OV.is_some(o), z3.Not(skip), OV.is_some(z3.Select(e.RG(v), k)))
        mm.assume([z3.Implies(s0, s1), z3.Implies(s1, z3.Or(s0, e.REC(k))), z3.Implies(e.followed, s1), z3.Select(a['dict'], k) == z3.Select(b['dict'], k)])
        mm.ghost['second'] = True
    e.followed = z3.BoolVal(False)
    second = OverSet(lambda mm, s, fr: isinstance(s, ast.For), lambda mm, sq: isinstance(sq, Seq) and sq.src and sq.src[0] == 'set', state, item2, each2, sum2)
    e.loops = [second]
    e.result = None
    def hook(mm, x, fr):
        if len(x.generators) != 1 or not isinstance(x, (ast.GeneratorExp, ast.DictComp, ast.ListComp)): return None
        it = mm.eval(x.generators[0].iter, fr)
        if isinstance(it, T) or isinstance(it, C) and isinstance(it.v, tuple): return None
        if isinstance(it, O) and mm.pytype(it) is set: F = mm.sstate(it).array()
        elif isinstance(it, S) and mm.is_(it, mm.kind(code).attrs['co_names']) is True: F = e.CN
        else: raise Unsupported('another comprehension')
        globs = e.final(mm, fr); e.F, e.G = F, mm.dmap(globs).array()
        if mm.ctx.choose(2):
            key = mm.sym('name', K_STR); mm.assume(z3.Select(F, key.t if isinstance(key, S) else term(key)))
            def check(i, ok, elt):
                o = z3.Select(e.G, term(key))
                mm.prove('exactly the names that exist', (z3.BoolVal(ok) if isinstance(ok, bool) else ok) == OV.is_some(o))
                if not mm.ctx.branch(OV.is_some(o)): raise PathEnd('left out')
                if isinstance(x, ast.DictComp): raise Unsupported('a dictionary comprehension')
                n, v = mm.unpack(elt(), 2); mm.prove('by their names', mm.eq(n, key)); mm.prove('with their values', term(v) == OV.val(o)); mm.cover('an entry')
            arbitrary_item(mm, x, fr, Seq(mm.ctx.fresh('n', I), lambda i: key), check)
        e.result = mm.sym('result', DK); return e.result
    m.ghost['comp_hooks'] = [hook]
    e.final = lambda mm, fr: state_final(mm, fr)
    return e


def state_final(m, fr):
    ds = [v for n, v in fr.vars.items() if isinstance(v, O) and m.pytype(v) is dict]
    if len(ds) != 1: raise Unsupported('values are kept in another way')
    return ds[0]


@unit('C20', 'globalvars of a function', ['dill.detect:globalvars'], covers=['a cell', 'an empty cell', 'a name followed', 'an entry', 'recursing', 'not recursing', 'a closure'], max_paths=4000)
def globals_of_function(m):
    """any function, method, closure and globals: the names its code (and what it refers to) loads that exist, with their current values"""
    n = m.ctx.fresh('ncells', I); m.assume(n > 0); at = z3.Function('cell_at', I, V)
    closed = m.ctx.choose(2)
    f, c = a_function(m); G = m.attrs[f.addr]['__globals__']; own = m.dmap(G).array()
    cseq = Seq(n, lambda i: m.as_kind(at(i), K_CELL))
    if closed: m.attrs[f.addr]['__closure__'] = m.sym('closure', Kind('closure', pytype=tuple, cons='ref', iter=lambda mm, v: cseq, truth=lambda mm, v: z3.BoolVal(True), length=lambda mm, v: n))
    e = globals_env(m, f, c); bi = m.dmap(e.B).array(); k, w = e.k, m.ctx.fresh('w', I)
    m.assume(z3.And(w >= 0, w < n)); full = lambda i: cell_full(V.rid(at(i))); val = lambda i: attr_val('cell_contents', m.epoch)(V.rid(at(i)))
    def item(mm, sq):
        i = mm.ctx.fresh('i', I); mm.assume([i >= 0, i < n]); mm.ghost['i'] = i; e.rec(mm); e.calls.clear(); return sq.get(i)
    def each(mm, x, b, a):
        i = mm.ghost['i']; o = z3.Select(e.RG(val(i)), k)
        if not mm.ctx.branch(full(i)):
            mm.cover('an empty cell'); mm.prove('empty cells add nothing', z3.And(z3.Select(a['set'], k) == z3.Select(b['set'], k), z3.Select(a['dict'], k) == z3.Select(b['dict'], k))); return
        mm.cover('a cell'); mm.prove('what the value of the closure variable refers to', len(e.calls) == 1 and term(e.calls[0]) == val(i))
        mm.prove('is added', z3.Select(a['set'], k) == z3.Or(z3.Select(b['set'], k), OV.is_some(o)))
        mm.prove('with its values', z3.Select(a['dict'], k) == z3.If(OV.is_some(o), o, z3.Select(b['dict'], k)))
    def summary(mm, b, a):
        s0, s1, d0, d1 = (z3.Select(x, k) for x in (b['set'], a['set'], b['dict'], a['dict']))
        mm.assume([z3.Implies(s0, s1), z3.Implies(s1, z3.Or(s0, e.CL(k))), z3.Or(d1 == d0, z3.And(e.CL(k), OV.is_some(d1))),
                   z3.Implies(z3.And(full(w), OV.is_some(z3.Select(e.RG(val(w)), k))), z3.And(s1, OV.is_some(d1)))])
        mm.cover('a closure')
    m.loopspecs['globalvars'] = [OverSet(lambda mm, s, fr: isinstance(s, ast.For) and 'first' not in mm.ghost and closed and not mm.ghost.__setitem__('first', 1), lambda mm, sq: sq is cseq, e.state, item, each, summary)] + e.loops
    x = a_method(m, f) if m.ctx.choose(2) else f
    out, r = m.run(DET.globalvars, [x, C(bool(e.recurse)), C(bool(e.builtin))])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('recursing' if e.recurse else 'not recursing')
    if e.result is None or m.pytype(r) is not dict: raise Unsupported('the result is made in another way')
    m.prove('the dictionary of these', m.dmap(r).array() == m.dmap(e.result).array())
    F, g = z3.Select(e.F, k), z3.Select(e.G, k); o = z3.Select(own, k); b = z3.Select(bi, k) if e.builtin else OV.absent
    m.prove('globals are bound to their current value', z3.Implies(OV.is_some(o), g == o))
    m.prove('other names only from builtins, if asked, or what the closure refers to', z3.Implies(OV.is_absent(o), z3.Or(g == b, z3.And(z3.BoolVal(bool(closed)), e.CL(k)))))
    m.prove('every global its code loads', z3.Implies(z3.Select(e.NG if e.recurse else e.CN, k), F))
    if closed: m.prove('all that the closure refers to', z3.Implies(z3.And(full(w), OV.is_some(z3.Select(e.RG(val(w)), k))), z3.And(F, OV.is_some(g))))
    m.prove('all that the objects so named refer to', z3.Implies(e.followed, F))
    if e.recurse: m.prove('every name was followed', 'second' in m.ghost)
    m.prove('nothing else', z3.Implies(F, z3.Or(z3.Select(e.NG if e.recurse else e.CN, k), z3.And(z3.BoolVal(bool(closed)), e.CL(k)), z3.And(z3.BoolVal(bool(e.recurse)), e.REC(k)))))
    m.prove('neither its globals nor the builtins are changed', z3.And(m.dmap(G).array() == own, m.dmap(e.B).array() == bi))


@unit('C20', 'globalvars of code and others', ['dill.detect:globalvars'], covers=['a name followed', 'an entry', 'recursing', 'not recursing', 'anything else'])
def globals_of_code(m):
    """a code object has no globals: the builtins among its names, if asked for; nothing for anything else"""
    if m.ctx.choose(2):
        m.cover('anything else'); x = something_else(m); x = a_method(m, C(len)) if m.ctx.choose(2) else x
        out, r = m.run(DET.globalvars, [x, SBool(m.ctx.fresh('recurse', B)), SBool(m.ctx.fresh('builtin', B))])
        m.prove('nothing', out == 'return' and m.pytype(r) is dict and m.dmap(r).base is None and not m.dict_keys_list(r)); return
    c = a_code(m); e = globals_env(m, c, c); bi = m.dmap(e.B).array(); k = e.k
    m.loopspecs['globalvars'] = e.loops
    out, r = m.run(DET.globalvars, [c, C(bool(e.recurse)), C(bool(e.builtin))])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('recursing' if e.recurse else 'not recursing')
    if e.result is None or m.pytype(r) is not dict: raise Unsupported('the result is made in another way')
    m.prove('the dictionary of these', m.dmap(r).array() == m.dmap(e.result).array())
    F, g = z3.Select(e.F, k), z3.Select(e.G, k)
    m.prove('only builtins, if asked for', g == (z3.Select(bi, k) if e.builtin else OV.absent))
    m.prove('every name its code loads', z3.Implies(z3.Select(e.NG if e.recurse else e.CN, k), F))
    m.prove('the builtins are unchanged', m.dmap(e.B).array() == bi)


LOADS = ('LOAD_GLOBAL', 'LOAD_NAME', 'LOAD_FROM_DICT_OR_GLOBALS')
OPS = sorted(set(dis.opmap))


REPLACE = ufun('str_replace_all', STR, STR, STR, STR)


def dis_line(m):
    """an arbitrary line that dis.dis prints for an instruction: any operation, with any argument; -> (line, operation, name or None)"""
    form = m.ctx.choose(3)
    if form == 2:          # blank lines, the exception table, and instructions without a name
        t = ('', 'ExceptionTable:', '  4 to 18 -> 30 [0] lasti', '  3           2 RESUME                   0')[m.ctx.choose(4)]
        return m.sym('line', Kind('line', cons='ref', methods={'split': lambda mm, o, a, kw: mm.new_list([C(t)]), 'strip': lambda mm, o, a, kw: C(t.strip())})), None, None
    op = OPS[m.ctx.choose(len(OPS))]
    head = C('  7     >>   12 %-20s     3 ' % op)
    if form == 1:          # the argument is shown as something else: a constant, a comparison, a jump target
        junk = lambda mm: mm.sym('text', Kind('junk', cons='ref', methods={'split': lambda m2, o, a, kw: m2.new_list([junk(m2), junk(m2)])}))
        def split(mm, o, a, kw): return mm.new_list([head, junk(mm)])
        if op in LOADS + ('STORE_GLOBAL', 'DELETE_GLOBAL') or 'NAME' in op: raise PathEnd('such an operation shows a name')
        return m.sym('line', Kind('line', cons='ref', methods={'split': split})), op, None
    name = m.sym('name', K_STR)
    for x in ('NULL + ', ' + NULL', 'NULL +', '+ NULL', 'NULL'): m.assume(REPLACE(zstr(name), z3.StringVal(x), z3.StringVal('')) == zstr(name)) if ' ' in x else None
    null = m.ctx.choose(3) if op == 'LOAD_GLOBAL' else 0
    def part(text):
        def replace(mm, o, a, kw):
            if not (isinstance(a[0], C) and isinstance(a[1], C) and a[1].v == ''): raise Unsupported('replace')
            return part(text.replace(a[0].v, '')) if a[0].v in text else o
        if text == 'X': return name       # (an identifier contains neither spaces nor parentheses)
        return m.sym('shown', Kind('shown', cons='ref', methods={'replace': replace}))
    shown = part(('X', 'NULL + X', 'X + NULL')[null])
    def close(mm, o, a, kw):
        if a[0].v != ')': raise Unsupported('split')
        return mm.new_list([shown, C('')])
    rest = m.sym('rest', Kind('rest', cons='ref', methods={'split': close, 'rstrip': lambda mm, o, a, kw: shown}))
    def split(mm, o, a, kw):
        if a[0].v != '(': raise Unsupported('split')
        return mm.new_list([head, rest])
    return m.sym('line', Kind('line', cons='ref', methods={'split': split})), op, name


@unit('C20', 'nestedglobals', ['dill.detect:nestedglobals'], covers=['a global is loaded', 'another operation', 'nested code', 'the list', 'no code'], max_paths=3000)
def nestedglobals(m):
    """any listing of any code: every name loaded by a global lookup, there or in code nested at any depth, and no name of another operation"""
    x = m.sym('x', ANY); isco = m.ctx.choose(2); recurse = m.ctx.choose(2)
    n = m.ctx.fresh('nconsts', I); m.assume(n >= 0); at = z3.Function('const_at', I, V)
    consts = Seq(n, lambda i: m.as_kind(at(i), ANY)); lines = Seq(m.ctx.fresh('nlines', I), lambda i: None); m.assume(lines.n >= 0)
    co = a_code(m, 'co', co_consts=m.sym('consts', Kind('consts', pytype=tuple, cons='ref', iter=lambda mm, v: consts)))
    NEST = lambda t: ufun('names_in', V, SETS)(t)
    m.overrides = dict(m.overrides); ov = m.overrides
    ov[host_rid(DET.code)] = lambda mm, a, kw: co if isco else NONE
    st = {'open': 0, 'dis': 0}
    lst = m.sym('lines', Kind('lines', pytype=list, cons='ref', iter=lambda mm, v: lines))
    text = m.sym('listing', Kind('listing', cons='ref', methods={'splitlines': lambda mm, o, a, kw: lst}))
    buf = m.sym('buffer', Kind('buffer', cons='ref', methods={'getvalue': lambda mm, o, a, kw: text}))
    def enter(mm, o, a, kw): st['open'] += 1; return buf
    def leave(mm, o, a, kw): st['open'] -= 1; return FALSE
    def capture(mm, a, kw):
        mm.prove('standard output is captured', not a or mm.eq(a[0], C('stdout')))
        return mm.sym('captured', Kind('captured', cons='ref', methods={'__enter__': enter, '__exit__': leave}))
    ov[host_rid(TEMP.capture)] = capture
    def disd(mm, a, kw):
        mm.prove('its own code is listed, while output is captured', And(mm.is_(a[0], co), st['open'] == 1)); st['dis'] += 1; return NONE
    ov[host_rid(dis.dis)] = disd
    k = term(m.sym('any_name', K_STR)); w = m.ctx.fresh('w', I)
    def state(mm, fr):
        ss = [v for v_n, v in fr.vars.items() if isinstance(v, O) and mm.pytype(v) is set]
        if len(ss) != 1: raise Unsupported('the names are kept in another way')
        return {'set': ss[0]}
    def item(mm, sq): l, mm.ghost['op'], mm.ghost['nm'] = dis_line(mm); return l
    def each(mm, xx, b, a):
        op, nm = mm.ghost['op'], mm.ghost['nm']; was, now = z3.Select(b['set'], k), z3.Select(a['set'], k)
        if nm is not None and op in LOADS: mm.cover('a global is loaded'); mm.prove('the name a global lookup loads is added', now == z3.Or(was, k == term(nm)))
        elif nm is not None and op in ('STORE_GLOBAL', 'DELETE_GLOBAL'): mm.prove('at most the name of the global', z3.And(z3.Implies(was, now), z3.Implies(now, z3.Or(was, k == term(nm)))))
        else: mm.cover('another operation'); mm.prove('other operations add nothing', now == was)
    def sum1(mm, b, a): mm.prove('nothing at first', z3.Not(z3.Select(b['set'], k))); mm.ghost['listed'] = z3.Select(a['set'], k); mm.assume(z3.Implies(mm.ghost['listed'], ufun('listed', V, z3.BoolSort())(k)))
    def item2(mm, sq):
        i = mm.ctx.fresh('i', I); mm.assume([i >= 0, i < n]); mm.ghost['it'] = at(i)
        mm.overrides = dict(mm.overrides)
        def rec(m2, a, kw):
            m2.prove('of the nested code, at any depth', And(term(a[0]) == at(i), m2.truth(a[1] if len(a) > 1 else kw.get('recurse', TRUE)))); mm.ghost['rec'] = True
            return names_list(m2, NEST(at(i)))
        mm.overrides[host_rid(DET.nestedglobals)] = rec
        mm.ghost['isc'] = mm.ctx.choose(2)
        if mm.ghost['isc']: return mm.as_kind(at(i), Kind('constcode', pytype=types.CodeType, cons='ref'))
        return something_else(mm)
    def each2(mm, xx, b, a):
        was, now = z3.Select(b['set'], k), z3.Select(a['set'], k)
        if mm.ghost['isc'] and recurse: mm.cover('nested code'); mm.prove('the names loaded by nested code are added', now == z3.Or(was, z3.Select(NEST(mm.ghost['it']), k)))
        else: mm.prove('nothing is added', now == was)
    def sum2(mm, b, a):
        mm.ghost['final'] = a['set']; s0, s1 = z3.Select(b['set'], k), z3.Select(a['set'], k)
        mm.assume([z3.Implies(s0, s1), z3.Implies(z3.And(w >= 0, w < n, ufun('wcode', V, z3.BoolSort())(at(w)), z3.BoolVal(bool(recurse)), z3.Select(NEST(at(w)), k)), s1)])
    For = lambda mm, s, fr: isinstance(s, ast.For)
    class Both:
        def matches(self, mm, s, fr): return isinstance(s, ast.For)
        def run_for(self, mm, s, fr, sq):
            OverSet(For, lambda m2, q: True, state, *((item, each, sum1) if sq is lines else (item2, each2, sum2))).run_for(mm, s, fr, sq) if sq is lines or sq is consts else unsupported()
    def unsupported(): raise Unsupported('another loop')
    m.loopspecs['nestedglobals'] = [Both()]
    out, r = m.run(DET.nestedglobals, [x, C(bool(recurse))])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    ls = m.lstate(r) if m.pytype(r) is list else None
    if ls is None: raise Unsupported('the result in another form')
    if not isco: m.cover('no code'); m.prove('an empty list', ls.n is None and not ls.items); return
    m.cover('the list')
    m.prove('output is captured no longer', st['open'] == 0 and st['dis'] == 1)
    if not isinstance(ls.arr, tuple): raise Unsupported('the result in another form')
    m.prove('all names listed', z3.Implies(m.ghost['listed'], z3.Select(ls.arr[1], k)))
    m.prove('all names of nested code', z3.Implies(z3.And(w >= 0, w < n, ufun('wcode', V, z3.BoolSort())(at(w)), z3.BoolVal(bool(recurse)), z3.Select(NEST(at(w)), k)), z3.Select(ls.arr[1], k)))
