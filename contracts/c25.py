from contracts.common import *
import gc

"""The search is a loop over a symbolic graph: invariants are pointwise facts about an arbitrary object (id k), an arbitrary
successor y of it and arbitrary positions i <= j of the queue; each is proved after every step from its instances before the step."""

E = z3.Function('edge', V, V, z3.BoolSort())        # y is among the neighbours of x
P = z3.Function('wanted', V, z3.BoolSort())         # the predicate
INT = z3.Function('of_the_search', I, z3.BoolSort())   # ids of the objects the search itself makes
NB = z3.Function('nneighbours', V, I); AT = z3.Function('neighbour', V, I, V); WIT = z3.Function('place', V, V, I)
UNID = z3.Function('object_with_id', I, V)
DONE, POS = z3.ArraySort(I, z3.BoolSort()), z3.ArraySort(I, I)


class Search:
    def __init__(self, m, obj, M, U):
        self.m, self.obj, self.M, self.U = m, term(obj), M, U
        self.k, self.y, self.i, self.j = m.ctx.fresh('k', I), m.ctx.fresh('y', V), m.ctx.fresh('p', I), m.ctx.fresh('q', I)
        self.stage, self.cur, self.inner, self.level = 'before', None, None, None
        self.seqs = []

    def id(self, t):
        t = term(t) if isinstance(t, Val) else t
        r = idof(t); self.m.assume(UNID(r) == t)
        return r

    # ---- the state of the search
    def roles(self, fr):
        """which variable is the queue, the distances, the predecessors and the set to ignore, by what they hold at first"""
        m = self.m; r = {}
        for n, v in fr.vars.items():
            if not isinstance(v, O): continue
            pt = m.objs[v.addr].pytype
            if pt is list and [term(x).eq(self.obj) for x in m.lstate(v).items] == [True]: r.setdefault('queue', []).append(n)
            elif pt is dict and m.dmap(v).base is None and len(m.dmap(v).writes) == 1:
                x = m.dmap(v).writes[0][1]
                r.setdefault('parent' if x is NONE or isinstance(x, C) and x.v is None else 'depth', []).append(n)
            elif pt is set: r.setdefault('ignore', []).append(n)
        if sorted(r) != ['depth', 'ignore', 'parent', 'queue'] or any(len(x) != 1 for x in r.values()): raise Unsupported('the state of the search is kept in another way')
        self.names = {k: x[0] for k, x in r.items()}
        self.objs = {k: fr.vars[x[0]] for k, x in r.items()}

    def read(self):
        m = self.m
        self.D, self.Pa, self.Ig = m.dmap(self.objs['depth']).array(), m.dmap(self.objs['parent']).array(), m.sstate(self.objs['ignore']).array()

    def havoc(self):
        m = self.m
        self.D, self.Pa = m.ctx.fresh('depth', z3.ArraySort(V, OV)), m.ctx.fresh('parent', z3.ArraySort(V, OV))
        self.Ig = m.ctx.fresh('ignore', SETS); self.q = m.ctx.fresh('queue', z3.ArraySort(I, V)); self.h, self.t = m.ctx.fresh('head', I), m.ctx.fresh('tail', I)
        self.done, self.pos = m.ctx.fresh('done', DONE), m.ctx.fresh('pos', POS)
        m.assume([self.h >= 0, self.h <= self.t])
        m.dicts[m.key(self.objs['depth'], m.dicts, True)] = DMap(self.D, (), K_INT, K_INT)
        m.dicts[m.key(self.objs['parent'], m.dicts, True)] = DMap(self.Pa, (), K_INT, ANY)
        m.sets[m.key(self.objs['ignore'], m.sets)] = SState(self.Ig, [])

    def has(self, k): return z3.Not(OV.is_absent(z3.Select(self.D, V.intv(k))))
    def d(self, k): return V.iv(OV.val(z3.Select(self.D, V.intv(k))))
    def pa(self, k): return OV.val(z3.Select(self.Pa, V.intv(k)))
    def u(self, k): return z3.Select(self.U, V.intv(k))
    def ig(self, k): return z3.Select(self.Ig, V.intv(k))

    # ---- the invariant, at instances
    def at_id(self, k):
        x, p, o = UNID(k), self.pa(k), self.id(self.obj)
        here = [] if self.cur is None else [k == idof(self.cur)]
        return [('what is known of an object is a distance within the depth', z3.Implies(self.has(k), z3.And(idof(x) == k, UNID(idof(x)) == x, V.is_intv(OV.val(z3.Select(self.D, V.intv(k)))), self.d(k) >= 0,
                    z3.Or(k == o, self.d(k) <= self.M), z3.Not(OV.is_absent(z3.Select(self.Pa, V.intv(k))))))),
                ('each object found is linked to the one before, one step nearer', z3.Implies(z3.And(self.has(k), k != o),
                    z3.And(E(p, x), self.has(idof(p)), self.d(idof(p)) == self.d(k) - 1, UNID(idof(p)) == p))),
                ('no ignored object is found', z3.Implies(z3.And(self.has(k), k != o), z3.Not(self.u(k)))),
                ('the search starts at the object', z3.Implies(k == o, z3.And(self.has(k), self.d(k) == 0, x == self.obj, V.is_none(p)))),
                ('each object found is waiting or done', z3.Implies(self.has(k), z3.Or(z3.Select(self.done, k),
                    z3.And(self.h <= z3.Select(self.pos, k), z3.Select(self.pos, k) < self.t, z3.Select(self.q, z3.Select(self.pos, k)) == x), *here))),
                ('what is done is not wanted', z3.Implies(z3.Select(self.done, k), z3.And(self.has(k), z3.Not(P(x))))),
                ('only ignored objects and those of the search are left out', z3.And(z3.Implies(self.ig(k), z3.Or(self.u(k), INT(k))), z3.Implies(self.u(k), self.ig(k))))]

    def at_edge(self, k, y):
        x, n = UNID(k), idof(y)
        return [('the neighbours of what is done are found', z3.Implies(z3.And(z3.Select(self.done, k), self.d(k) < self.M, E(x, y), z3.Not(self.u(n)), z3.Not(INT(n))),
                    z3.And(self.has(n), self.d(n) <= self.d(k) + 1)))]

    def waits(self, j): return z3.And(self.h <= j, j < self.t)
    def qd(self, j): return self.d(idof(z3.Select(self.q, j)))
    def at_pos(self, j):
        b = self.qd(self.h) if self.cur is None else self.d(idof(self.cur))
        x = z3.Select(self.q, j)
        return [('waiting objects are at this distance or the next', z3.Implies(self.waits(j), z3.And(self.has(idof(x)), UNID(idof(x)) == x, b <= self.qd(j), self.qd(j) <= b + 1)))]
    def at_done(self, k, j):
        b, w = (self.qd(j), self.waits(j)) if self.cur is None else (self.d(idof(self.cur)), True)
        return [('what is done is not further than what waits', z3.Implies(z3.And(z3.Select(self.done, k), w), self.d(k) <= b))]
    def at_two(self, i, j):
        return [('nearer objects wait in front', z3.Implies(z3.And(self.waits(i), self.waits(j), i <= j), self.qd(i) <= self.qd(j)))]
    def at_cur(self):
        if self.inner is None: return []
        c = self.cur
        return [('the object being expanded is found, not wanted and near enough', z3.And(self.has(idof(c)), z3.Not(P(c)), self.d(idof(c)) < self.M, self.d(idof(c)) == self.level))]
    def at_inner(self, i):
        n = idof(AT(self.cur, i))
        return [('the neighbours seen so far are found or left out', z3.Implies(z3.And(i >= 0, i < self.inner), z3.Or(self.ig(n), z3.And(self.has(n), self.d(n) <= self.d(idof(self.cur)) + 1))))]

    def assume(self, ids=(), ys=(), js=(), ins=()):
        m = self.m
        ids = [self.id(self.obj), self.k, self.id(self.y)] + list(ids) + ([self.id(self.cur)] if self.cur is not None else [])
        js = [self.i, self.j, self.h, self.t - 1, z3.Select(self.pos, self.k)] + list(js); ys = [self.y] + list(ys)
        fs = [f for k in ids for _, f in self.at_id(k)] + [f for k in ids for y in ys for _, f in self.at_edge(k, y)]
        fs += [f for j in js for _, f in self.at_pos(j)] + [f for i in js for j in js for _, f in self.at_two(i, j)]
        fs += [f for _, f in self.at_cur()] + [f for k in ids for j in js for _, f in self.at_done(k, j)]
        if self.inner is not None: fs += [f for i in list(ins) + [self.i] for _, f in self.at_inner(i)]
        m.assume(fs)

    def prove(self):
        self.read()
        self.id(self.y); self.id(UNID(self.k))
        for x in (z3.Select(self.q, self.i), z3.Select(self.q, self.j), z3.Select(self.q, self.h), self.pa(self.k)): self.id(x)
        out = self.at_id(self.k) + self.at_edge(self.k, self.y) + self.at_pos(self.i) + self.at_two(self.i, self.j) + self.at_done(self.k, self.j) + self.at_cur()
        if self.inner is not None: self.id(AT(self.cur, self.i)); out += self.at_inner(self.i)
        for label, f in out: self.m.prove(label, f)

    # ---- the queue, once its contents are arbitrary
    def queue(self):
        m = self.m
        def pop(mm, o, a, kw):
            if a and not (isinstance(a[0], C) and a[0].v == 0): raise Unsupported('the queue is taken from another end')
            if self.stage != 'outer' or self.cur is not None: raise Unsupported('two objects are taken from the queue')
            if mm.branch(self.h == self.t): mm.raise_(IndexError, C('pop from empty list'))
            x = z3.Select(self.q, self.h); self.h = z3.simplify(self.h + 1); self.cur = x; self.level = self.d(idof(x))
            self.id(x); self.assume()
            return S(x) if False else mm.as_kind(x, ANY)
        def append(mm, o, a, kw):
            x = term(a[0]); n = self.id(x)
            self.q = z3.Store(self.q, self.t, x); self.pos = z3.Store(self.pos, n, self.t); self.t = z3.simplify(self.t + 1)
            return NONE
        return m.sym('queue', Kind('queue', cons='ref', methods={'pop': pop, 'popleft': pop, 'append': append}, truth=lambda mm, s: self.h < self.t, length=lambda mm, s: self.t - self.h))


def assigned(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Outer:
    """while there are objects waiting"""
    def __init__(self, st): self.st = st
    def matches(self, m, s, fr): return isinstance(s, ast.While) and self.st.stage == 'before'
    def run_while(self, m, s, fr):
        st = self.st; st.roles(fr); st.stage = 'outer'
        for x in st.objs.values(): m.assume(INT(m.call(C(id), [x], {}).t))
        st.read(); st.q = z3.Store(z3.K(I, V.none), 0, st.obj); st.h, st.t = z3.IntVal(0), z3.IntVal(1)
        st.done, st.pos = z3.K(I, False), z3.Store(z3.K(I, z3.IntVal(-1)), st.id(st.obj), 0)
        st.prove()
        extra = (assigned(s.body) & set(fr.vars)) - {fr_n for fr_n in ()}
        if extra: raise Unsupported('other variables change in the search: %s' % sorted(extra))
        st.havoc(); fr.vars[st.names['queue']] = st.queue()
        st.assume()
        if not m.branch(m.eval(s.test, fr)):
            st.stage = 'exhausted'; m.exec_body(s.orelse, fr); return
        try: m.exec_body(s.body, fr)
        except BreakExc: st.stage = 'left'; return
        except ContinueExc: pass
        if st.cur is None: raise Unsupported('nothing is taken from the queue')
        m.cover('an object done')
        st.read(); st.id(st.cur)
        st.done = z3.Store(st.done, idof(st.cur), True); st.assume_edges()
        st.cur = st.inner = None
        st.prove()
        raise PathEnd('one object done')


def assume_edges(self):
    """the neighbours are all of those enumerated (and their places)"""
    m = self.m; c = self.cur
    m.assume(z3.Implies(E(c, self.y), z3.And(WIT(c, self.y) >= 0, WIT(c, self.y) < NB(c), AT(c, WIT(c, self.y)) == self.y)))
Search.assume_edges = assume_edges


class Inner:
    """for each neighbour"""
    def __init__(self, st): self.st = st
    def matches(self, m, s, fr): return isinstance(s, ast.For) and self.st.stage == 'outer' and self.st.cur is not None
    def run_for(self, m, s, fr, seq):
        st = self.st
        if st.inner is not None: raise Unsupported('the neighbours are gone through twice')
        if not any(seq is q for q in st.seqs): raise Unsupported('another loop')
        st.read(); st.inner = z3.IntVal(0)
        st.prove()
        st.havoc()
        c = st.cur
        if m.ctx.choose(2) == 0:
            i = m.ctx.fresh('at', I); m.assume([i >= 0, i < seq.n]); st.inner = i
            x = AT(c, i); st.id(x); m.assume(E(c, x))
            st.assume(ids=[idof(x)], ys=[x], js=[z3.Select(st.pos, idof(x))])
            m.assign(s.target, seq.get(i), fr)
            try: m.exec_body(s.body, fr)
            except ContinueExc: pass
            except BreakExc: m.prove('all the neighbours are looked at', False); raise PathEnd('break')
            m.cover('a neighbour')
            st.read(); st.inner = i + 1
            st.prove()
            raise PathEnd('one neighbour done')
        st.inner = seq.n
        w = WIT(c, st.y)
        st.assume(ins=[w], ids=[st.id(AT(c, w))]); st.assume_edges()
        m.exec_body(s.orelse, fr)


class Chain:
    """while the start is not reached: walk back"""
    def __init__(self, st): self.st = st
    def matches(self, m, s, fr): return isinstance(s, ast.While) and self.st.stage == 'outer' and self.st.cur is not None and self.st.inner is None
    def inv(self, n, arr, last, j):
        st = self.st; a = lambda i: z3.Select(arr, i); o = st.obj
        return [('the chain starts with what was found', z3.And(n >= 1, a(0) == st.found, a(n - 1) == last)),
                ('the chain goes through objects found, one step nearer each time', z3.Implies(z3.And(j >= 0, j < n), z3.And(st.has(idof(a(j))), UNID(idof(a(j))) == a(j), st.d(idof(a(j))) == st.d(idof(st.found)) - j))),
                ('consecutive objects are linked', z3.Implies(z3.And(j >= 0, j < n - 1), z3.And(E(a(j + 1), a(j)), a(j) != o)))]
    def run_while(self, m, s, fr):
        st = self.st; st.stage = 'chain'; st.read(); st.found = st.cur
        lists = [n for n, v in fr.vars.items() if isinstance(v, O) and m.objs[v.addr].pytype is list and len(m.lstate(v).items) == 1 and m.lstate(v).n is None and term(m.lstate(v).items[0]).eq(st.cur)]
        walk = [n for n in assigned(s.body) if n in fr.vars]
        if len(lists) != 1 or len(walk) != 1: raise Unsupported('the chain is made in another way')
        lst, walk = fr.vars[lists[0]], walk[0]
        n0, a0 = z3.IntVal(1), z3.Store(z3.K(I, V.none), 0, st.cur)
        def prove(n, arr, last):
            for j in (st.j,):
                st.id(z3.Select(arr, j)); st.id(z3.Select(arr, j + 1)); st.id(last)
                for label, f in self.inv(n, arr, last, j): m.prove(label, f)
        prove(n0, a0, term(fr.vars[walk]))
        n, arr, last = m.ctx.fresh('n', I), m.ctx.fresh('chain', z3.ArraySort(I, V)), m.ctx.fresh('last', V)
        m.assume([f for j in (st.j, n - 1, z3.IntVal(0), n - 2) for _, f in self.inv(n, arr, last, j)])
        st.assume(ids=[st.id(last), st.id(z3.Select(arr, st.j))])
        m.lists[m.key(lst, m.lists)] = LState([], n, lambda i: m.as_kind(z3.Select(arr, i), ANY))
        fr.vars[walk] = m.as_kind(last, ANY)
        if m.branch(m.eval(s.test, fr)):
            m.exec_body(s.body, fr)
            ls = m.lstate(lst)
            if ls.n is None or not ls.n.eq(n): raise Unsupported('the chain is changed in another way')
            m.prove('one object is added to the chain', len(ls.items) == 1)
            if len(ls.items) == 1:
                m.cover('a link'); prove(n + 1, z3.Store(arr, n, term(ls.items[0])), term(fr.vars[walk]))
            raise PathEnd('one link done')
        st.chain = (n, arr); st.stage = 'chained'
        m.exec_body(s.orelse, fr)


def search_env(m):
    obj = m.sym('obj', ANY); m.assume(V.is_ref(obj.t) if m.ctx.choose(2) else obj.t == V.none)
    depth = m.sym('max_depth', K_INT)
    extra = m.sym('extra_ignore', K_SET)
    U = m.sstate(extra).array()
    st = Search(m, obj, depth.t, U)
    def edges(mm, f, a, kw):
        x = term(a[0])
        if st.cur is not None: mm.prove('the neighbours of the object taken from the queue', x == st.cur)
        seq = Seq(NB(x), lambda i: mm.as_kind(AT(x, i), ANY)); st.seqs.append(seq)
        mm.assume(NB(x) >= 0)
        r = mm.sym('neighbours', Kind('neighbours', pytype=list, cons='ref', iter=lambda m2, v: seq, length=lambda m2, v: NB(x)))
        mm.assume(INT(mm.call(C(id), [r], {}).t)); return r
    def wanted(mm, f, a, kw): return SBool(P(term(a[0])))
    m.overrides = dict(m.overrides)
    def frame(mm, a, kw):
        f = mm.sym('frame', ANYREF); mm.assume(INT(mm.call(C(id), [f], {}).t)); return f
    m.overrides[host_rid(sys._getframe)] = frame
    m.overrides[host_rid(gc.collect)] = lambda mm, a, kw: mm.sym('collected', K_INT)
    m.assume(INT(m.call(C(id), [extra], {}).t))
    m.loopspecs['find_chain'] = [Chain(st), Inner(st), Outer(st)]
    return st, obj, depth, extra, m.sym('edge_func', Kind('edge_func', cons='ref', call=edges)), m.sym('predicate', Kind('predicate', cons='ref', call=wanted))


@unit('C25', 'the search', ['dill.pointers:find_chain'], covers=['found', 'not found', 'an object done', 'a neighbour', 'a link', 'further away'], max_paths=4000)
def search(m):
    """any graph, predicate, depth and set of ignored ids"""
    st, obj, depth, extra, edges, wanted = search_env(m)
    out, r = m.run(PTR.find_chain, [obj, wanted, edges, depth, extra])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    ls = m.lstate(r)
    k, y = st.k, st.y
    def step(limit):
        # induction along any chain obj = c0, c1, .. of objects neither ignored nor of the search: each ci is found, at distance <= i
        i = m.ctx.fresh('len', I)
        hyp = z3.And(st.has(k), st.d(k) <= i, i >= 0, i < limit)
        m.prove('no shorter chain: each object on it would be found', z3.Implies(z3.And(hyp, E(UNID(k), y), z3.Not(st.u(idof(y))), z3.Not(INT(idof(y)))), z3.And(st.has(idof(y)), st.d(idof(y)) <= i + 1)))
    if st.stage == 'exhausted':
        m.cover('not found')
        m.prove('just the object', ls.n is None and len(ls.items) == 1 and m.is_(ls.items[0], obj))
        step(st.M)
        m.prove('no chain at all: none of the objects found is wanted', z3.Implies(st.has(k), z3.Not(P(UNID(k)))))
        return
    if st.stage != 'chained': raise Unsupported('the chain is made in another way')
    m.cover('found')
    n, arr = st.chain; a = lambda i: z3.Select(arr, i); j = st.j
    m.prove('the chain that was made', ls.n is not None and ls.n.eq(n) and not ls.items)
    st.id(a(n - 1)); st.id(st.found)
    m.prove('it starts with a wanted object', z3.And(a(0) == st.found, P(st.found)))
    m.prove('it ends with the object', a(n - 1) == st.obj)
    m.prove('of at most the requested depth', z3.Or(n == 1, n - 1 <= st.M))
    st.assume(ids=[st.id(a(j))])
    m.prove('no ignored object but the start', z3.Implies(z3.And(j >= 0, j < n - 1), z3.Not(st.u(idof(a(j))))))
    m.prove('all links are real', z3.Implies(z3.And(j >= 0, j < n - 1), E(a(j + 1), a(j))))
    step(n - 1)
    m.prove('no shorter chain: none ends in a wanted object', z3.Implies(z3.And(st.has(k), st.d(k) < n - 1), z3.Not(P(UNID(k)))))
    if m.branch(n > 1): m.cover('further away')


ISA = z3.Function('isa_one_of', V, V, z3.BoolSort())       # isinstance(x, types)


def chain_env(m):
    """isinstance of the requested types, and the two relations of the collector"""
    obj = m.sym('obj', ANY); m.assume(V.is_ref(obj.t))
    types_ = m.sym('types', ANYREF)
    host_isinstance = m.overrides.get(host_rid(isinstance))
    m.overrides = dict(m.overrides)
    def isinst(mm, a, kw):
        if mm.is_(a[1], types_) is True: return SBool(ISA(term(a[0]), types_.t))
        raise Unsupported('isinstance of something else')
    def relation(name):
        def f(mm, a, kw):
            x = term(a[0]); n, at = z3.Function(name + '_n', V, I), z3.Function(name + '_at', V, I, V)
            l = mm.new_list([]); mm.lists[mm.key(l, mm.lists)] = LState([], n(x), lambda i: mm.as_kind(at(x, i), ANY)); mm.assume(n(x) >= 0)
            mm.ghost.setdefault('related', []).append((name, x, l)); return l
        return f
    for f, name in ((gc.get_referents, 'referents'), (gc.get_referrers, 'referrers')): m.overrides[host_rid(f)] = relation(name)
    m.isinst = isinst
    return obj, types_


def find_contract(m, obj, types_, name, depth, ignored):
    """contract of find_chain ('the search'): called for the object, with this relation, these types, this depth and ids"""
    def find(mm, a, kw):
        names = ['obj', 'predicate', 'edge_func', 'max_depth', 'extra_ignore']
        if len(a) + len(kw) != 5 or not set(kw) <= set(names[len(a):]): raise Unsupported('the search is called in another way')
        a = list(a) + [kw[n] for n in names[len(a):]]
        mm.prove('the search starts at the object', mm.is_(a[0], obj))
        x = mm.sym('x', ANY); mm.assume(V.is_ref(x.t))
        old = mm.overrides.get(host_rid(isinstance)); mm.overrides = dict(mm.overrides); mm.overrides[host_rid(isinstance)] = mm.isinst
        t = mm.truth(mm.call(a[1], [x], {}))
        mm.overrides = dict(mm.overrides)
        if old is None: del mm.overrides[host_rid(isinstance)]
        else: mm.overrides[host_rid(isinstance)] = old
        mm.prove('exactly the objects of the types are wanted', (z3.BoolVal(t) if isinstance(t, bool) else t) == ISA(x.t, types_.t))
        mm.ghost['related'] = []
        r = mm.call(a[2], [x], {}); rel = mm.ghost['related']
        mm.prove('the neighbours are the %s' % name, len(rel) == 1 and rel[0][0] == name and rel[0][1].eq(x.t) and mm.is_(r, rel[0][2]) is True)
        mm.prove('to the requested depth', mm.eq(a[3], depth))
        ignored(mm, a[4])
        n, at, j = mm.ctx.fresh('n', I), mm.ctx.fresh('chain', z3.ArraySort(I, V)), mm.ctx.fresh('j', I)
        mm.assume([n >= 1, z3.Select(at, n - 1) == obj.t])
        l = mm.new_list([]); mm.lists[mm.key(l, mm.lists)] = LState([], n, lambda i: mm.as_kind(z3.Select(at, i), ANY))
        mm.ghost['chain'] = (n, at); return l
    m.overrides = dict(m.overrides); m.overrides[host_rid(PTR.find_chain)] = find


def ignore_arg(m):
    """a collection of objects of any size, or a single one"""
    if m.ctx.choose(2) == 0:
        n = m.ctx.fresh('nignored', I); at = z3.Function('ignored_at', I, V); m.assume(n >= 0)
        seq = Seq(n, lambda i: m.as_kind(at(i), ANYREF))
        ign = m.sym('ignore', Kind('collection', cons='ref', iter=lambda m2, v: seq, length=lambda m2, v: n, attrs={'__len__': ANYREF}))
        mark = []
        def hook(mm, x, fr):
            if len(x.generators) != 1: return None
            it = mm.eval(x.generators[0].iter, fr)
            if mm.is_(it, ign) is not True: return None
            if mm.ctx.choose(2):
                def check(i, ok, elt): mm.prove('every ignored object is ignored by its id', And(ok, mm.eq(elt(), SInt(mm.call(C(id), [mm.as_kind(at(i), ANYREF)], {}).t))))
                arbitrary_item(mm, x, fr, seq, check)
            r = mm.sym('ids', ANYREF); mark.append(r); return r
        m.ghost['comp_hooks'] = [hook]
        def ignored(mm, ids):
            mm.cover('a collection ignored')
            mm.prove('the ids of the ignored objects', len(mark) == 1 and mm.is_(ids, mark[0]) is True)
        return ign, ignored
    one = m.sym('one', Kind('one', cons='ref', attrs={'__len__': lambda mm, t: ABSENT}))
    def ignored(mm, ids):
        mm.cover('one ignored')
        got = mm.finite(ids)
        mm.prove('the id of the ignored object', And(len(got) == 1, *[mm.eq(g, mm.call(C(id), [one], {})) for g in got]))
    return one, ignored


@unit('C25', 'parents and children', ['dill.pointers:parents', 'dill.pointers:children'], covers=['parents', 'children', 'a collection ignored', 'one ignored', 'the default'])
def chains(m):
    """the search along referents (referrers), for the types, to the depth (1), without the ignored objects; parents starts with the object, children ends with it"""
    which = m.ctx.choose(2); name = ('parents', 'children')[which]
    obj, types_ = chain_env(m); depth = m.sym('depth', K_INT)
    given = m.ctx.choose(3)             # which arguments are given
    ign, ignored = ignore_arg(m) if given == 2 else (None, None)
    if given < 2:
        def ignored(mm, ids): mm.cover('the default'); mm.prove('nothing is ignored', len(mm.finite(ids)) == 0)
    find_contract(m, obj, types_, ('referents', 'referrers')[which], depth if given else C(1), ignored)
    args = [obj, types_] + ([depth] if given else []) + ([ign] if given == 2 else [])
    out, r = m.run(getattr(PTR, name), args)
    m.prove('returns normally', out == 'return')
    if out != 'return' or 'chain' not in m.ghost: return
    m.cover(name)
    n, at = m.ghost['chain']; s = m.iter_list(r); j = m.ctx.fresh('k', I); m.assume([j >= 0, j < n])
    if not isinstance(s, Seq): raise Unsupported('the chain in another form')
    m.prove('the whole chain', s.n == n)
    m.prove('in order', term(s.get(j)) == z3.Select(at, n - 1 - j if which == 0 else j))
    end = s.get(z3.IntVal(0)) if which == 0 else s.get(n - 1)
    m.prove('parents starts, children ends with the object', m.is_(end, obj))


@unit('C25', 'parent', ['dill.pointers:parent'], covers=['found', 'none', 'a collection ignored'])
def parent(m):
    """what the chain of parents to depth 1 ends with, or None if that is the object itself"""
    obj = m.sym('obj', ANY); m.assume(V.is_ref(obj.t)); types_, ign = m.sym('types', ANYREF), m.sym('ignore', ANYREF)
    given = m.ctx.choose(2)
    found = m.ctx.choose(2); p = m.sym('found', ANY); m.assume(p.t != obj.t)
    def parents(mm, a, kw):
        names = ['obj', 'objtype', 'depth', 'ignore']; a = list(a) + [kw.get(n) for n in names[len(a):]]
        mm.prove('the parents of the object, of the types', And(mm.is_(a[0], obj), mm.is_(a[1], types_)))
        mm.prove('to depth 1', a[2] is None or mm.eq(a[2], C(1)))
        if given: mm.cover('a collection ignored'); mm.prove('without those ignored', a[3] is not None and mm.is_(a[3], ign))
        else: mm.prove('nothing is ignored', a[3] is None or (mm.pytype(a[3]) is tuple and len(mm.finite(a[3])) == 0))
        return mm.new_list([obj] + ([p] if found else []))
    m.overrides = dict(m.overrides); m.overrides[host_rid(PTR.parents)] = parents
    out, r = m.run(PTR.parent, [obj, types_] + ([ign] if given else []))
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.cover('found' if found else 'none')
    m.prove('the parent found, or None', m.is_(r, p if found else NONE))


@unit(['C25', 'C08'], '_locate_object', ['dill._dill:_locate_object'], covers=['found', 'not found', 'not an address', 'in a module'])
def locate_object(m):
    """the object whose id is the address; ReferenceError if none of those looked at has it, TypeError if it is no address"""
    kind = m.ctx.choose(4)
    addr = m.sym('address', (K_INT, K_STR, K_BYTES, K_NONE)[kind])
    n = m.ctx.fresh('nobjects', I); m.assume(n >= 0); at = z3.Function('live_at', I, V)
    seq = Seq(n, lambda i: m.as_kind(at(i), ANY))
    src = m.sym('objects', Kind('objects', pytype=list, cons='ref', iter=lambda mm, v: seq, length=lambda mm, v: n))
    m.overrides = dict(m.overrides); m.overrides[host_rid(gc.get_objects)] = lambda mm, a, kw: src
    def hexa(mm, a, kw):
        if mm.pytype(mm.force(a[0])) is int: return mkstr(ufun('hexa', I, STR)(zint(a[0])))
        mm.raise_(TypeError, C("object cannot be interpreted as an integer"))
    m.overrides[host_rid(hex)] = hexa
    w = m.ctx.fresh('w', I)
    ident = lambda i: m.call(C(id), [m.as_kind(at(i), ANY)], {}).t
    def differs(i): return z3.BoolVal(True) if kind else ident(i) != addr.t
    def over(mm, s, fr): return True
    def at_iter(mm, i, item, ev, out):
        mm.prove('objects at other addresses are passed over', And(out == 'next', term(item) == at(i), differs(i)))
    def after(mm, sq):
        if sq is not seq: raise Unsupported('a loop over something else')
        mm.assume(z3.Implies(z3.And(w >= 0, w < n), differs(w)))
    it = Iteration(at_iter, after, when=lambda mm, s, fr: True)
    class OverLive:
        def matches(self, mm, s, fr): return isinstance(s, ast.For)
        def run_for(self, mm, s, fr, sq): it.run_for(mm, s, fr, sq)
    m.loopspecs['_locate_object'] = [OverLive()]
    args = [addr]
    if m.ctx.choose(2):
        m.cover('in a module')
        vals = m.sym('values', Kind('values', cons='ref', iter=lambda mm, v: seq))
        md = m.sym('namespace', Kind('namespace', cons='ref', methods={'values': lambda mm, o, a, kw: vals}))
        args.append(m.sym('module', Kind('module', cons='ref', attrs={'__dict__': md}, truth=lambda mm, v: z3.BoolVal(True))))
    out, r = m.run(D._locate_object, args)
    if out == 'return':
        m.cover('found')
        m.prove('the object with that very address', kind == 0 and m.eq(m.call(C(id), [r], {}), addr))
        return
    if kind == 0:
        m.cover('not found')
        m.prove('ReferenceError', m.pytype(r) is ReferenceError)
        m.prove('only if no object looked at has the address', z3.Implies(z3.And(w >= 0, w < n), differs(w)))
        m.prove('nor one of the constants', And(*[Not(m.eq(m.call(C(id), [C(x)], {}), addr)) for x in (None, True, False)]))
    else:
        m.cover('not an address'); m.prove('TypeError', m.pytype(r) is TypeError)
