from contracts.common import *
from contracts.c20 import havoc, contents
import inspect

TRAPPED = (TypeError, AssertionError, NotImplementedError, pickle.PicklingError, pickle.UnpicklingError)
HOW = ('a value', 'an AttributeError', 'a TypeError', 'any other exception')


def outcome(m, what, kinds=HOW):
    """a value, or an exception of any class"""
    k = kinds[m.ctx.choose(len(kinds))]
    if k == HOW[1]: return k, m.sym_exc(what, isa=(AttributeError,))
    if k == HOW[2]: return k, m.sym_exc(what, isa=(TypeError,))
    if k == HOW[3]: return k, m.sym_exc(what, nota=(AttributeError, TypeError))
    return k, None


def is_trapped(m, e, safe):
    return z3.If(zb(m.truth(safe)), zb(m.isinst_formula(e, Exception)), zb(Or(*[m.isinst_formula(e, c) for c in TRAPPED])))


def zb(f): return z3.BoolVal(f) if isinstance(f, bool) else f


def filters_kept(m, what='the warning filters are as before'):
    m.prove(what, m.ghost.get('filters', []) == [] and not m.ghost.get('filterstack'))


class Cmp:
    """how the object and its copy compare: with all() or without, with any result, an ambiguous one, or any exception"""
    def __init__(self, m, quick=False):
        self.m = m; self.exc = None; self.value = None       # the exception that decides, or the truth that does
        self.shape = ('neither has all()', 'one has all()', 'both have all()')[m.ctx.choose(3)]
        self.alls = {}; self.log = []
        def method(which):
            def f(mm, o, a, kw):
                if which not in self.alls:
                    k, x = outcome(mm, 'all() of the %s' % which); self.alls[which] = (k, x if x is not None else mm.sym('all_%s' % which, ANYREF))
                k, x = self.alls[which]; self.log.append((which, k))
                if k != HOW[0]: raise PyRaise(x)
                return x
            return f
        has = {'neither has all()': (0, 0), 'one has all()': (1, 0) if m.ctx.choose(2) == 0 and self.shape == 'one has all()' else (0, 1), 'both have all()': (1, 1)}[self.shape]
        mk = lambda name, h: Kind(name, cons='ref', **(dict(methods={'all': method(name)}) if h else dict(attrs={'all': lambda mm, t: ABSENT})))
        self.K = {'copy': mk('copy', has[0]), 'object': mk('object', has[1])}
        self.obj = m.sym('object', self.K['object']); self.pik = m.sym('pik', self.K['copy'])
        m.assume(z3.Distinct(self.obj.t, self.pik.t))
        self.results = {}
        m.eq_hook = self.eq
    def pair(self, a, b):
        for x, y in ((a, b), (b, a)):
            if self.m.is_(x, self.pik) is True and self.m.is_(y, self.obj) is True: return 'objects'
            if all(w in self.alls and self.alls[w][0] == HOW[0] for w in ('copy', 'object')) and self.m.is_(x, self.alls['copy'][1]) is True and self.m.is_(y, self.alls['object'][1]) is True: return 'alls'
        return None
    def eq(self, a, b):
        m = self.m; p = self.pair(a, b)
        if p is None: return None
        if p not in self.results:
            k, x = outcome(m, 'comparison of the %s' % p)
            self.results[p] = (k, x if x is not None else self.result(p))
        k, x = self.results[p]; self.log.append((p, k))
        if k != HOW[0]: raise PyRaise(x)
        return x
    def result(self, p):
        """any result: true or false, ambiguous (its truth raises), or an array-like with toarray()"""
        m = self.m; how = m.ctx.choose(3); t = m.ctx.fresh('true', z3.BoolSort())
        st = type('R', (), {})(); st.kind = ('plain', 'ambiguous', 'array-like')[how]; st.t = t; st.exc = None
        def truth(mm, v):
            if st.exc is None: st.k, st.exc = outcome(mm, 'truth of the comparison', HOW[1:])
            raise PyRaise(st.exc)
        def toarray(mm, o, a, kw):
            def all_(mm2, o2, a2, kw2):
                return mkbool(t)
            return mm.sym('array', Kind('array', cons='ref', methods={'all': all_}))
        kw = dict(attrs={'toarray': lambda mm, v: ABSENT})
        if how == 0: kw['truth'] = lambda mm, v: t
        elif how == 1: kw['truth'] = truth
        else: kw = dict(methods={'toarray': toarray}, truth=truth)
        r = m.sym('result', Kind('result', cons='ref', **kw)); self.__dict__.setdefault('infos', {})[p] = st
        return r
    def verdict(self):
        """('equal', formula) or ('raises', exc): the comparison of an array-like by its all(), of any other object by =="""
        A = self.alls
        if self.shape == 'both have all()':
            kinds = [A[w] for w in ('copy', 'object') if w in A]
            bad = [x for x in kinds if x[0] != HOW[0]]
            if not bad:
                if 'alls' not in self.results: raise Unsupported('all() is not compared')
                k, x = self.results['alls']
                if k == HOW[0]:
                    st = self.infos['alls']
                    if st.kind == 'plain': return 'equal', st.t
                    if st.exc is None: raise Unsupported('the comparison of all() is not tested')
                    k, x = st.k, st.exc
                if k == HOW[3]: return 'raises', x
            elif bad[0][0] == HOW[3]: return 'raises', bad[0][1]
        elif [x for x in A.values() if x[0] == HOW[3]]: return 'raises', [x for x in A.values() if x[0] == HOW[3]][0][1]
        if 'objects' not in self.results: raise Unsupported('the objects are not compared')
        k, x = self.results['objects']
        if k != HOW[0]: return 'raises', x
        st = self.infos['objects']
        if st.kind == 'ambiguous':
            if st.exc is None: raise Unsupported('the result is not tested')
            return 'raises', st.exc
        return 'equal', st.t


def any_kwds(m):
    kw = DMap(m.ctx.fresh('kwargs', DICT), (), K_STR, None)
    for n in ('obj', 'exact', 'safe', 'self'): m.assume(OV.is_absent(z3.Select(kw.array(), z3.simplify(V.strv(z3.StringVal(n))))))
    return kw


def copy_contract(m, obj, arr, act):
    calls = []
    def copy(mm, a, kw):
        calls.append(a)
        mm.prove('the object itself is copied', len(a) == 1 and mm.is_(a[0], obj))
        mm.prove('with the given settings', (set(kw) == {'**'} and kw['**'].array() == arr) if arr is not None else not kw)
        return act(mm)
    m.overrides = dict(m.overrides); m.overrides[host_rid(D.copy)] = copy
    return calls


@unit('C21', 'pickles: the copy fails', ['dill._dill:pickles'], covers=['trapped', 'let through'])
def copy_fails(m):
    """copying raises an exception of any class: False if it is trapped, else it is raised"""
    exact, safe = m.sym('exact', K_BOOL), m.sym('safe', K_BOOL); obj = m.sym('obj', ANY); kw = any_kwds(m); exc = m.sym_exc('boom')
    def act(mm): raise PyRaise(exc)
    calls = copy_contract(m, obj, kw.array(), act)
    out, r = m.run(D.pickles, [obj, exact, safe], {}, kw)
    m.prove('one copy is made', len(calls) == 1); filters_kept(m)
    t = is_trapped(m, exc, safe)
    if m.ctx.branch(t): m.cover('trapped'); m.prove('a trapped error means no', out == 'return' and m.pytype(r) is bool and Not(m.truth(r)))
    else: m.cover('let through'); m.prove('every other exception comes through', out == 'raise' and m.is_(r, exc))


@unit('C21', 'pickles: the copy is compared', ['dill._dill:pickles'], covers=['neither has all()', 'one has all()', 'both have all()', 'equal', 'unequal', 'cannot be compared', 'let through', 'the same type'], max_paths=20000, seconds=300)
def copy_compared(m):
    """a copy of any type that compares in any way: the verdict is a bool, true exactly if the copy is equal or (unless exact) of the same type; filters are left as they were"""
    exact, safe = m.sym('exact', K_BOOL), m.sym('safe', K_BOOL); c = Cmp(m); kw = any_kwds(m)
    calls = copy_contract(m, c.obj, kw.array(), lambda mm: c.pik)
    out, r = m.run(D.pickles, [c.obj, exact, safe], {}, kw)
    m.prove('one copy is made', len(calls) == 1); filters_kept(m); m.cover(c.shape)
    how, x = c.verdict()
    if how == 'raises' and not m.branch(mkbool(m.isinst_formula(x, Exception))):
        m.cover('let through'); m.prove('what is no Exception comes through', out == 'raise' and m.is_(r, x)); return
    m.prove('there is a verdict', out == 'return')
    if out != 'return': return
    m.prove('it is a bool', m.pytype(m.force(r)) is bool)
    eq = z3.BoolVal(False) if how == 'raises' else x
    ta, tb = m.type_val(c.pik), m.type_val(c.obj)
    same = z3.Or(zb(m.eq(ta, tb)), zstr(m.repr_(ta)) == zstr(m.repr_(tb)))
    if how == 'raises': m.cover('cannot be compared')
    elif m.ctx.branch(eq): m.cover('equal')
    else: m.cover('unequal')
    m.prove('true exactly if equal, or unless exact of the same type', zb(m.truth(r)) == z3.Or(eq, z3.And(z3.Not(zb(m.truth(exact))), same)))
    if m.ctx.branch(z3.And(z3.Not(eq), same, z3.Not(zb(m.truth(exact))))): m.cover('the same type')


# ---- detect
PICKLES = z3.Function('pickles', V, z3.BoolSort())
RAISES = z3.Function('pickles_raises', V, z3.BoolSort())


def bind(fn, a, kw):
    b = inspect.signature(fn).bind(*a, **{k: v for k, v in kw.items()}); b.apply_defaults(); return b.arguments


def pickles_contract(m, exact, safe, excs=None):
    """any verdict, as a function of the object; or any exception"""
    calls = []
    def pickles(mm, a, kw):
        if set(kw) - {'obj', 'exact', 'safe'}: mm.prove('no other settings', False)
        v = bind(D.pickles, a, kw); v = {k: C(x) if isinstance(x, bool) else x for k, x in v.items()}
        mm.prove('asked with the given settings', And(zb(mm.truth(v['exact'])) == zb(mm.truth(exact)), zb(mm.truth(v['safe'])) == zb(mm.truth(safe))))
        o = v['obj']; calls.append(o)
        if mm.ctx.branch(RAISES(term(o))):
            if excs is None: raise Unsupported('an exception of pickles here')
            if term(o).get_id() not in excs: excs[term(o).get_id()] = (mm.sym_exc('let_through'), term(o))
            raise PyRaise(excs[term(o).get_id()][0])
        return mkbool(PICKLES(term(o)))
    m.overrides = dict(m.overrides); m.overrides[host_rid(D.pickles)] = pickles
    return calls


def the_object(m):
    obj = m.sym('obj', ANY); m.assume(z3.Implies(V.is_none(obj.t), z3.And(PICKLES(obj.t), z3.Not(RAISES(obj.t)))))
    return obj


@unit('C21', 'badobjects, badtypes, errors of the object', ['dill.detect:badobjects', 'dill.detect:badtypes', 'dill.detect:errors'],
      covers=['badobjects', 'badtypes', 'errors', 'it pickles', 'it does not', 'pickles raises', 'the error is of the copy', 'the copy differs', 'no Exception'])
def depth_zero(m):
    """depth 0, by default or not: None exactly if the object pickles; otherwise the object, its type, or the error of the copy, or an error that the copy differs"""
    which = m.ctx.choose(3); name = ('badobjects', 'badtypes', 'errors')[which]; obj = the_object(m); excs = {}
    exact, safe = m.sym('exact', K_BOOL), m.sym('safe', K_BOOL)
    calls = pickles_contract(m, exact, safe, excs); m.cover(name)
    boom = m.sym_exc('copying'); pik = m.sym('pik', ANYREF); copied = []
    def act(mm):
        copied.append(1)
        if mm.ctx.choose(2): copied.append('raised'); raise PyRaise(boom)
        return pik
    copy_contract(m, obj, None, act)
    out, r = m.run(getattr(DET, name), [obj, C(0), exact, safe])
    m.prove('the object is asked for', bool(calls) and And(*[m.is_(x, obj) for x in calls]))
    if m.ctx.branch(RAISES(obj.t)):
        m.cover('pickles raises'); e = excs[obj.t.get_id()][0] if obj.t.get_id() in excs else None
        if e is None: return
        if which == 2 and m.branch(mkbool(m.isinst_formula(e, Exception))): m.prove('the error is reported', out == 'return' and m.is_(r, e))
        else: m.prove('what pickles lets through comes through', out == 'raise' and m.is_(r, e)); m.cover('no Exception')
        return
    if m.ctx.branch(PICKLES(obj.t)): m.cover('it pickles'); m.prove('nothing is reported for what pickles', out == 'return' and m.is_(r, NONE)); return
    m.cover('it does not')
    if which == 0: m.prove('the object is reported', out == 'return' and m.is_(r, obj))
    elif which == 1: m.prove('its type is reported', out == 'return' and m.is_(r, m.type_val(obj)))
    elif 'raised' in copied:
        if m.branch(mkbool(m.isinst_formula(boom, Exception))): m.cover('the error is of the copy'); m.prove('the error of the copy is reported', out == 'return' and m.is_(r, boom))
        else: m.prove('what is no Exception comes through', out == 'raise' and m.is_(r, boom))
    else:
        m.cover('the copy differs'); m.prove('an error is reported', out == 'return' and Not(m.is_(r, NONE)) and m.isinst_formula(r, Exception))


class Attributes:
    """the attributes of an object: an arbitrary one is judged, in a loop or a comprehension; then the whole is any dictionary"""
    def __init__(self, m, obj, judge):
        self.m, self.obj, self.judge, self.result = m, obj, judge, None
        self.n = m.ctx.fresh('nattrs', I); m.assume(self.n >= 0); self.at = z3.Function('attr_at', I, STR)
        self.seq = Seq(self.n, lambda i: SStr(self.at(i)))
        def dir_(mm, a):
            mm.prove('the attributes are those of the object', len(a) == 1 and mm.is_(a[0], obj)); self.dirs += 1
            return mm.sym('dir', Kind('dir', pytype=list, cons='ref', iter=lambda m2, v: self.seq))
        self.dirs = 0
        m.ghost['dir_hook'] = dir_; m.ghost['comp_hooks'] = [self.hook]
    def hook(self, m, x, fr):
        if len(x.generators) != 1 or not isinstance(x, (ast.GeneratorExp, ast.DictComp, ast.ListComp)): return None
        it = m.iterate(m.eval(x.generators[0].iter, fr))
        if it is not self.seq: raise Unsupported('another comprehension')
        if m.ctx.choose(2):
            g = x.generators[0]; sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): sub.locals.add(n.id)
            i = m.ctx.fresh('i', I); m.assume([i >= 0, i < self.n]); a = self.seq.get(i); m.assign(g.target, a, sub)
            def body():
                if not all(m.branch(m.eval(c, sub)) for c in g.ifs): return None
                return (m.eval(x.key, sub), m.eval(x.value, sub)) if isinstance(x, ast.DictComp) else tuple(m.unpack(m.eval(x.elt, sub), 2))
            self.one(a, body)
        r = m.sym('entries', K_DICT); self.result = r
        return r
    def one(self, a, body):
        try: got = ('value', body())
        except PyRaise as e: got = ('raise', e.val)
        self.judge(self.m, a, got); raise PathEnd('an arbitrary attribute')
    # as a loop
    def matches(self, m, s, fr): return isinstance(s, ast.For)
    def run_for(self, m, s, fr, seq):
        if seq is not self.seq: raise Unsupported('another loop')
        ds = [v for v in fr.vars.values() if isinstance(v, O) and m.pytype(v) is dict]
        if len(ds) != 1: raise Unsupported('the entries are kept in another way')
        d, = ds
        if m.ctx.choose(2):
            i = m.ctx.fresh('i', I); m.assume([i >= 0, i < self.n]); a = seq.get(i); before = havoc(m, d); m.assign(s.target, a, fr)
            def body():
                try: m.exec_body(s.body, fr)
                except ContinueExc: pass
                except BreakExc: m.prove('the loop goes on', False)
                now = contents(m, d); k = m.ctx.fresh('other', V)
                m.prove('no other entry is changed', z3.Implies(k != term(a), z3.Select(now, k) == z3.Select(before, k)))
                v = m.dget(d, a)
                if v is ABSENT or m.ctx.must(z3.Select(now, term(a)) == z3.Select(before, term(a))): return None
                return a, v
            self.one(a, body)
        m.prove('at first there is nothing', contents(m, d) == EMPTYD)
        havoc(m, d); self.result = d
        m.exec_body(s.orelse, fr)


@unit('C21', 'attributes that fail', ['dill.detect:badobjects', 'dill.detect:badtypes', 'dill.detect:errors'],
      covers=['badobjects', 'badtypes', 'errors', 'a failing attribute', 'an attribute that pickles', 'an unreadable attribute', 'let through', 'the result'], max_paths=6000)
def deeper(m):
    """any depth above 0: an arbitrary attribute is listed exactly if it fails, with what the same function reports of it one level less deep"""
    which = m.ctx.choose(3); name = ('badobjects', 'badtypes', 'errors')[which]; fn = getattr(DET, name); obj = m.sym('obj', ANYREF); excs = {}
    exact, safe, depth = m.sym('exact', K_BOOL), m.sym('safe', K_BOOL), m.sym('depth', K_INT); m.assume(depth.t > 0); m.cover(name)
    pickles_contract(m, exact, safe, excs)
    value = m.sym('value', ANY); unread = m.sym_exc('unreadable', isa=(Exception,)) if which == 2 and m.ctx.choose(2) else None; inner = []
    def get(mm, a):
        mm.prove('the attributes are read from the object', len(a) == 2 and mm.is_(a[0], obj))
        if unread is not None: raise PyRaise(unread)
        return value
    m.ghost['getattr_hook'] = get
    report = m.sym('report', ANY); fail = m.sym_exc('inner')
    def rec(mm, a, kw):
        v = bind(fn, a, kw); v = {k: C(x) if isinstance(x, (bool, int)) else x for k, x in v.items()}
        mm.prove('the same function of the value, one level less', And(mm.is_(v['obj'], value), mm.eq(v['depth'], SInt(depth.t - 1))))
        mm.prove('with the same settings', And(zb(mm.truth(v['exact'])) == zb(mm.truth(exact)), zb(mm.truth(v['safe'])) == zb(mm.truth(safe))))
        inner.append(1)
        if mm.ctx.choose(2): inner.append('raised'); raise PyRaise(fail)
        return report
    def judge(mm, a, got):
        how, r = got
        if unread is not None:
            mm.cover('an unreadable attribute'); mm.prove('the error of reading it is reported', how == 'value' and r is not None and mm.eq(r[0], a) and mm.is_(r[1], unread)); return
        if mm.ctx.branch(RAISES(value.t)):
            mm.cover('let through'); e = excs.get(value.t.get_id())
            mm.prove('the attribute is asked for', e is not None); mm.prove('what pickles lets through comes through', how == 'raise' and mm.is_(r, e[0])); return
        if mm.ctx.branch(PICKLES(value.t)):
            mm.cover('an attribute that pickles'); mm.prove('it is not listed', how == 'value' and r is None); return
        mm.cover('a failing attribute')
        if 'raised' in inner: mm.prove('the exception comes through', how == 'raise' and mm.is_(r, fail)); return
        mm.prove('it is listed', how == 'value' and r is not None)
        if how == 'value' and r is not None: mm.prove('under its name', mm.eq(r[0], a)); mm.prove('with what is reported of it', inner == [1] and mm.is_(r[1], report))
    at = Attributes(m, obj, judge); m.loopspecs[name] = [at]
    real = m.call_host; state = {'in': False}
    def call_host(o, args, kwargs, kwrest):
        if o is fn:
            if state['in']: return rec(m, args, kwargs)
            state['in'] = True
        return real(o, args, kwargs, kwrest)
    m.call_host = call_host
    m.env.model(dict, lambda mm, a, kw: a[0] if at.result is not None and len(a) == 1 and not kw and a[0] is at.result else (_ for _ in ()).throw(Unsupported('dict()')))
    out, r = m.run(fn, [obj, depth, exact, safe])
    m.cover('the result'); m.prove('the entries are returned', out == 'return' and at.result is not None and m.is_(r, at.result)); m.prove('all attributes are considered', at.dirs == 1)


@unit('C21', 'items that fail', ['dill.detect:baditems'], covers=['not iterable', 'not iterable, fails', 'the items', 'the values', 'values is no method', 'a failing item', 'an item listed before', 'an item that pickles', 'the result'], max_paths=6000)
def items(m):
    """any iterable, of any number of items: after every round exactly the items seen that fail are listed, by identity, once each"""
    exact, safe = m.sym('exact', K_BOOL), m.sym('safe', K_BOOL); FAILS = z3.Function('fails', V, z3.BoolSort())
    m.assume(z3.Not(FAILS(V.none)))
    n = m.ctx.fresh('nitems', I); m.assume(n >= 0); at = z3.Function('item_at', I, V); seq = Seq(n, lambda i: m.as_kind(at(i), ANY))
    n2 = m.ctx.fresh('nvalues', I); m.assume(n2 >= 0); at2 = z3.Function('value_at', I, V); seq2 = Seq(n2, lambda i: m.as_kind(at2(i), ANY))
    shape = m.ctx.choose(4)
    if shape == 0: attrs, methods, want = {'__iter__': lambda mm, t: ABSENT, 'values': lambda mm, t: ABSENT}, {}, None
    elif shape == 1: attrs, methods, want = {'__iter__': ANYREF, 'values': lambda mm, t: ABSENT}, {}, seq
    elif shape == 2: attrs, methods, want = {'__iter__': ANYREF}, {'values': lambda mm, o, a, kw: mm.sym('values', Kind('values', cons='ref', iter=lambda m2, v: seq2))}, seq2
    else: attrs, methods, want = {'__iter__': ANYREF, 'values': (K_INT, K_NONE, K_LIST)[m.ctx.choose(3)]}, {}, seq
    obj = m.sym('obj', Kind('obj', cons='ref', attrs=attrs, methods=methods, iter=lambda mm, v: seq)); m.assume(z3.Not(V.is_none(obj.t)))
    m.cover(('not iterable', 'the items', 'the values', 'values is no method')[shape])
    exc = {}
    def bad(mm, a, kw):
        v = bind(DET.badobjects, a, kw); v = {k: C(x) if isinstance(x, (bool, int)) else x for k, x in v.items()}
        mm.prove('the item itself is judged', mm.eq(v['depth'], C(0)))
        mm.prove('with the given settings', And(zb(mm.truth(v['exact'])) == zb(mm.truth(exact)), zb(mm.truth(v['safe'])) == zb(mm.truth(safe))))
        return v['obj'] if mm.ctx.branch(FAILS(term(v['obj']))) else NONE
    m.overrides = dict(m.overrides); m.overrides[host_rid(DET.badobjects)] = bad
    def pick(mm, a, kw):
        v = bind(D.pickles, a, kw); v = {k: C(x) if isinstance(x, (bool, int)) else x for k, x in v.items()}
        mm.prove('with the given settings', And(zb(mm.truth(v['exact'])) == zb(mm.truth(exact)), zb(mm.truth(v['safe'])) == zb(mm.truth(safe))))
        return mkbool(z3.Not(FAILS(term(v['obj']))))
    m.overrides[host_rid(D.pickles)] = pick
    MEM = {}
    def hook(mm, x, fr):
        if len(x.generators) != 1: return None
        it = mm.eval(x.generators[0].iter, fr)
        if not (isinstance(it, O) and it.addr in MEM and isinstance(x, ast.GeneratorExp)): return None
        # any(...) of a test against the items listed: the test must be identity with the item
        l = mm.lstate(it)
        if l.items or x.generators[0].ifs: raise Unsupported('another search in the list')
        j = mm.sym('listed', ANY)
        sub = Frame(fr, fr.module, fr.fn); sub.comp = True
        for nn in ast.walk(x.generators[0].target):
            if isinstance(nn, ast.Name): sub.locals.add(nn.id)
        mm.assign(x.generators[0].target, j, sub)
        f = zb(mm.truth(mm.eval(x.elt, sub))); cur = term(mm.ghost['item'])
        if not mm.ctx.must(f == (j.t == cur)): raise Unsupported('another test against the list')
        return It([mkbool(z3.Select(MEM[it.addr], cur))])
    m.ghost['comp_hooks'] = [hook]
    class Loop:
        def matches(self, mm, s, fr): return isinstance(s, ast.For)
        def run_for(self, mm, s, fr, sq):
            mm.prove('the items are those of the object, or its values', sq is want)
            ls = [v for v in fr.vars.values() if isinstance(v, O) and mm.pytype(v) is list]
            if len(ls) != 1: raise Unsupported('the result is kept in another way')
            L, = ls; st = mm.lstate(L); mm.prove('at first nothing is listed', st.n is None and not st.items)
            if mm.ctx.choose(2):
                i = mm.ctx.fresh('i', I); mm.assume([i >= 0, i < sq.n]); x = sq.get(i); mm.ghost['item'] = x; t = term(x)
                mem = mm.ctx.fresh('listed', SETS); k = mm.ctx.fresh('any', V); ln = mm.ctx.fresh('len', I); mm.assume(ln >= 0)
                for z in (t, k): mm.assume(z3.Implies(z3.Select(mem, z), FAILS(z)))       # the invariant: what is listed fails
                MEM[L.addr] = mem; arr = mm.ctx.fresh('arr', z3.ArraySort(I, V))
                mm.lists[mm.key(L, mm.lists, True)] = LState([], ln, lambda q: mm.as_kind(z3.Select(arr, q), ANY), arr)
                was = z3.Select(mem, t); mm.assign(s.target, x, fr)
                try: mm.exec_body(s.body, fr)
                except ContinueExc: pass
                except BreakExc: mm.prove('the loop goes on', False)
                now = mm.lstate(L)
                if now.n is None or not z3.eq(now.n, ln): raise Unsupported('the list is changed in another way')
                added = now.items
                mem2 = z3.Or(z3.Select(mem, k), *[k == term(a) for a in added])
                mm.prove('an item is listed exactly if it fails', mem2 == z3.Or(z3.Select(mem, k), z3.And(k == t, FAILS(t))))
                mm.prove('at most once', len(added) <= 1 and (not added or z3.Not(was)))
                if mm.ctx.branch(was): mm.cover('an item listed before')
                elif mm.ctx.branch(FAILS(t)): mm.cover('a failing item')
                else: mm.cover('an item that pickles')
                raise PathEnd('an arbitrary round')
            mm.lists[mm.key(L, mm.lists, True)] = LState([], mm.ctx.fresh('len', I), lambda q: mm.sym('one', ANY), None); self.result = L
            mm.exec_body(s.orelse, fr)
    loop = Loop(); loop.result = None; m.loopspecs['baditems'] = [loop]
    out, r = m.run(DET.baditems, [obj, exact, safe])
    m.prove('returns', out == 'return')
    if out != 'return': return
    if want is None:
        its = m.finite(r) if m.pytype(r) is list else None
        m.prove('a list', its is not None)
        if m.ctx.branch(FAILS(obj.t)): m.cover('not iterable, fails'); m.prove('the object itself, if it fails', len(its) == 1 and m.is_(its[0], obj))
        else: m.prove('nothing', len(its) == 0)
        return
    m.cover('the result'); m.prove('the list is returned', loop.result is not None and m.is_(r, loop.result))
