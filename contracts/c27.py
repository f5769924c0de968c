from contracts.common import *
import importlib, builtins, ast, types as _types
_import = builtins.__import__
DIFF = importlib.import_module('dill.__diff'); builtins.__import__ = _import      # the module replaces it, which is not for the verifier

KD = z3.ArraySort(V, OV)
CH = z3.Function('has_itself_changed', V, B)
some = lambda t: OV.some(t)


def shadow(fn):
    """the function itself; calls of its global name are replaced by its contract"""
    f = _types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, fn.__closure__)
    f.__module__, f.__qualname__ = fn.__module__, fn.__qualname__
    return f


class Graph:
    """an object: its attributes (None or any dict), its items (None, or of any number: by key, in order, or in no order), the memo"""
    def __init__(self, m, form=None, plain=None):
        self.m = m; self.form = form if form is not None else ('none', 'keys', 'order', 'set')[m.ctx.choose(4)]; form = self.form
        self.plain = plain if plain is not None else m.ctx.choose(2)
        m.overrides = dict(m.overrides)
        K_AN = Kind('object', cons='ref', pytype={'keys': dict, 'order': list, 'set': set}.get(form))
        self.obj = m.sym('obj', K_AN); self.id = m.call(C(id), [self.obj], {})
        self.k0 = m.sym('attribute', K_STR); self.A = self.attrs = self.items = None
        if not self.plain:
            self.A = m.ctx.fresh('attributes', KD); self.attrs = m.alloc(dict); m.dicts[self.attrs.addr] = DMap(self.A, (), K_STR, ANY)
        self.q0 = m.ctx.fresh('key', V); self.j0 = m.ctx.fresh('position', I); self.n = m.ctx.fresh('n', I); m.assume(self.n >= 0)
        self.at = z3.Function('item', I, V); self.sorted_at = z3.Function('item_by_identity', I, V)
        if form == 'keys':
            self.Q = m.ctx.fresh('items', KD); self.items = m.alloc(dict); m.dicts[self.items.addr] = DMap(self.Q, (), ANY, ANY)
        elif form == 'order':
            self.items = m.alloc(list); m.lists[self.items.addr] = LState([], self.n, lambda i: m.as_kind(self.at(self.z(i)), ANY))
        elif form == 'set':
            self.items = m.sym('its_items', Kind('a_set', pytype=set, cons='ref', iter=lambda mm, v: Seq(self.n, lambda i: mm.as_kind(self.at(self.z(i)), ANY), ('set',))))
            real = m.overrides.get(host_rid(len))
            m.overrides[host_rid(len)] = lambda mm, a, kw: SInt(self.n) if isinstance(a[0], S) and mm.is_(a[0], self.items) is True else mm.env.models[host_rid(len)](mm, a, kw)
        m.overrides[host_rid(DIFF.get_attrs)] = self.hand_out('attributes', lambda: self.attrs or NONE)
        m.overrides[host_rid(DIFF.get_seq)] = self.hand_out('items', lambda: self.items or NONE)
        self.M, self.O, self.DM = m.ctx.fresh('memo', KD), m.ctx.fresh('objects', KD), m.ctx.fresh('dont_memo', z3.ArraySort(V, B))
        m.dicts[host_rid(DIFF.memo)] = DMap(self.M, (), K_INT, ANY); m.dicts[host_rid(DIFF.id_to_obj)] = DMap(self.O, (), K_INT, ANY)
        m.sets[host_rid(DIFF.dont_memo)] = SState(self.DM)
        self.memorised = OV.is_some(z3.Select(self.M, term(self.id))); self.excluded = z3.Select(self.DM, term(self.id))
    def z(self, i): return z3.IntVal(i) if isinstance(i, int) else i
    def hand_out(self, what, v):
        def f(mm, a, kw): mm.prove('the %s of the object' % what, mm.is_(a[0], self.obj)); return v()
        return f
    def idt(self, t): return term(self.m.call(C(id), [self.m.as_kind(t, ANY)], {}))
    def source(self, seq):
        """what a loop or comprehension goes over: ('attributes' or 'items', keys/values/items)"""
        s = seq.src
        if s and s[0] == 'dict':
            if self.A is not None and s[1].eq(self.A): return 'attributes', s[2]
            if self.form == 'keys' and s[1].eq(self.Q): return 'items', s[2]
        if s and s[0] == 'set' and self.form == 'set': return 'items', 'values'
        if self.form == 'order' and seq.n is self.n: return 'items', 'values'
        raise Unsupported('something else is gone over')


class SortedIds:
    """sorted(items, key=id) and sorted(ids): equal as sequences exactly if the sets are equal"""
    def __init__(self, g, ids):
        m = g.m
        def f(mm, a, kw):
            x = a[0]
            if g.form == 'set' and mm.is_(x, g.items) is True:
                mm.prove('sorted by identity', 'key' in kw and isinstance(kw['key'], C) and kw['key'].v is id)
                o = mm.alloc(list); mm.lists[o.addr] = LState([], g.n, lambda i: mm.as_kind(g.sorted_at(g.z(i)), ANY)); return o
            if mm.is_(x, ids.v) is True:
                mm.prove('as numbers', not kw); o = mm.alloc(list); mm.lists[o.addr] = LState([], ids.n, lambda i: SInt(ids.sorted_at(g.z(i)))); return o
            raise Unsupported('sorted')
        m.overrides[host_rid(sorted)] = f


# ------------------------------------------------------------------ asking
class Recorded:
    """what the memo says of the object"""
    def __init__(self, g):
        m = g.m; self.n = m.ctx.fresh('recorded_n', I); m.assume(self.n >= 0)
        self.R = m.ctx.fresh('recorded_attributes', KD); self.S = m.ctx.fresh('recorded_items', KD); self.at, self.sorted_at = z3.Function('recorded', I, I), z3.Function('recorded_by_number', I, I)
        self.attrs = m.alloc(dict); m.dicts[self.attrs.addr] = DMap(self.R, (), K_STR, K_INT)
        if g.form == 'keys': self.v = m.alloc(dict); m.dicts[self.v.addr] = DMap(self.S, (), K_INT, K_INT)
        elif g.form == 'none': self.v = NONE
        else: self.v = m.alloc(list); m.lists[self.v.addr] = LState([], self.n, lambda i: SInt(self.at(g.z(i))))
        entry = T([NONE if g.attrs is None else self.attrs, self.v])
        m.dicts[host_rid(DIFF.memo)] = DMap(g.M, [(g.id, entry)], K_INT, ANY)
        SortedIds(g, self)


class Asking:
    """nested questions are answered as the contract says; the loops over attributes and items"""
    def __init__(self, g, rec, seen):
        self.g, self.rec, self.seen, self.m = g, rec, seen, g.m; m = g.m; self.asked = 0
        def inner(mm, a, kw):
            v = dict(zip(('obj', 'seen', 'simple', 'first'), a)); v.update(kw); self.asked += 1
            mm.prove('within the same question', And('seen' in v and seen() is not None and mm.is_(v['seen'], seen()), 'first' in v and Not(mm.truth(v['first'])), 'simple' in v and mm.truth(v['simple'])))
            mm.prove('the object is marked as examined before others are', seen() is not None and mm.dget(seen(), g.id) is not ABSENT)
            return SBool(CH(term(v['obj'])))
        m.overrides[host_rid(DIFF.whats_changed)] = inner
        m.loopspecs = Anywhere(self)
        m.ghost['comp_hooks'] = [self.comp]; self.dicts = {}; self.later = {}
        for f in (any, all):
            def quantified(mm, aa, kw, f=f):
                if isinstance(aa[0], O) and aa[0].addr in self.later: return self.quantified(f, *self.later[aa[0].addr])
                return mm.env.models[host_rid(f)](mm, aa, kw)
            m.overrides[host_rid(f)] = quantified
        def mkdict(mm, a, kw):
            if len(a) == 1 and isinstance(a[0], O) and a[0].addr in self.dicts: return self.dicts[a[0].addr]
            if a or kw: raise Unsupported('dict()')
            r = mm.alloc(dict); mm.dicts[r.addr] = DMap(); return r
        m.overrides[host_rid(dict)] = mkdict
    def rebound(self, k, o):
        """the attribute k, which is o, was added or rebound, or is an object that changed"""
        r = z3.Select(self.rec.R, k); return z3.Or(OV.is_absent(r), OV.val(r) != self.g.idt(o), CH(o))
    def differs(self, what):
        """an item (with its key or position) is not what was recorded, or changed"""
        g, r = self.g, self.rec
        if g.form == 'keys':
            k, x = what, OV.val(z3.Select(g.Q, what)); s = z3.Select(r.S, g.idt(k)); return z3.Or(OV.is_absent(s), OV.val(s) != g.idt(x), CH(k), CH(x))
        at, rat = (g.at, r.at) if g.form == 'order' else (g.sorted_at, r.sorted_at)
        return z3.Or(V.intv(rat(what)) != g.idt(at(what)), CH(at(what)))
    def quantified(self, f, x, fr, seq):
        """any(an item differs), or that all do not"""
        g, m = self.g, self.m; how = m.ctx.choose(3); gen = x.generators[0]
        if gen.ifs: raise Unsupported('some of the items')
        if how == 0: m.assume(self.none_differs); self.ended = 'all compared'; return C(f is all)
        i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n]); item, w = self.at(seq, i); d = self.differs(w)
        if how == 1: m.assume(d); self.ended, self.witness = 'at an item', d; return C(f is any)
        sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield; sub.locals.update(n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name))
        m.assign(gen.target, item, sub); t = z3_(m.truth(m.eval(x.elt, sub))); m.cover('an item')
        m.prove('found exactly if an item differs', (t if f is any else z3.Not(t)) == d); raise PathEnd('an item')
    def at(self, seq, i):
        g, m = self.g, self.m; item = seq.get(i)
        if g.form == 'keys': k = term(item.items[0]) if isinstance(item, T) else term(item); m.assume(OV.is_some(z3.Select(g.Q, k))); return item, k
        m.prove('all items are compared', seq.n == g.n); return item, i
    def comp(self, m, x, fr):
        """a dict of attributes that are gone, or of those reported, made of (key, value) pairs; or items that are compared"""
        if len(x.generators) != 1: return None
        gen = x.generators[0]; v = m.eval(gen.iter, fr); seq = m.iterate(v)
        if not isinstance(seq, Seq): return None
        src = seq.src if seq.src and seq.src[0] == 'dict' else None
        if src and src[1].eq(self.rec.R): A, new = self.rec.R, False
        elif src and self.g.A is not None and src[1].eq(self.g.A): A, new = self.g.A, True
        else:
            o = m.alloc(list); self.later[o.addr] = (x, fr, seq); return o
        value = lambda k: OV.val(z3.Select(A, k)) if new else term(NONE)
        want = lambda k: self.rebound(k, value(k)) if new else OV.is_absent(z3.Select(self.g.A, k))
        if m.ctx.choose(2) == 0:
            sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield; sub.locals.update(n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name))
            i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n]); item = seq.get(i); m.assign(gen.target, item, sub)
            k = term(item.items[0]) if isinstance(item, T) else term(item); m.assume(OV.is_some(z3.Select(A, k)))
            ok = all(m.branch(m.eval(c, sub)) for c in gen.ifs)
            m.cover('an attribute'); m.prove('exactly the attributes that were added, rebound or changed' if new else 'exactly the attributes that are gone', z3.BoolVal(ok) == want(k))
            if not ok: raise PathEnd('an attribute')
            e = T([m.eval(x.key, sub), m.eval(x.value, sub)]) if isinstance(x, ast.DictComp) else m.eval(x.elt, sub)
            m.prove('are reported by name, and with their value', isinstance(e, T) and len(e.items) == 2 and And(term(e.items[0]) == k, term(e.items[1]) == value(k))); raise PathEnd('an attribute')
        k0 = term(self.g.k0); G = m.ctx.fresh('reported', KD); r = m.alloc(dict)
        m.assume(z3.Select(G, k0) == z3.If(z3.And(OV.is_some(z3.Select(A, k0)), want(k0)), some(value(k0)), OV.absent))
        m.dicts[r.addr] = DMap(G, (), K_STR, ANY)
        if isinstance(x, ast.DictComp): return r
        o = m.alloc(list); self.dicts[o.addr] = r; return o


def z3_(f): return z3.BoolVal(f) if isinstance(f, bool) else f


class Anywhere(dict):
    def __init__(self, a): self.a = a
    def get(self, k, d=None): return [self]
    def matches(self, m, s, fr): return True
    def run_for(self, m, s, fr, seq):
        a, g = self.a, self.a.g
        if not isinstance(seq, Seq): raise Unsupported('a loop')
        src = seq.src
        if isinstance(a, Memorising): return a.items(m, s, fr, seq)
        if src and src[0] == 'dict' and src[1].eq(a.rec.R): return self.attributes(m, s, fr, seq, True)
        if src and src[0] == 'dict' and g.A is not None and src[1].eq(g.A): return self.attributes(m, s, fr, seq)
        return self.items(m, s, fr, seq)
    def attributes(self, m, s, fr, seq, old=False):
        """each attribute is reported, with its value, exactly if it was added or rebound or changed (or, of those recorded, is gone); the others are left alone"""
        a, g = self.a, self.a.g; A = a.rec.R if old else g.A
        mine = {x.addr for x in (a.seen(), a.rec.attrs, a.rec.v, g.attrs, g.items) if isinstance(x, O)}
        changed = list({v.addr: v for v in fr.vars.values() if isinstance(v, O) and m.pytype(v) is dict and v.addr in m.dicts and v.addr not in mine}.values())
        if len(changed) != 1: raise Unsupported('where changes are collected')
        key = m.key(changed[0], m.dicts); value = lambda k: term(NONE) if old else OV.val(z3.Select(A, k))
        want = lambda k: OV.is_absent(z3.Select(g.A, k)) if old else a.rebound(k, value(k))
        if m.ctx.choose(2) == 0:
            i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n]); start = m.ctx.fresh('before', KD); m.dicts[key] = DMap(start, (), K_STR, ANY)
            item = seq.get(i); k = term(item.items[0]) if isinstance(item, T) else term(item); m.assume(OV.is_some(z3.Select(A, k)))
            m.assign(s.target, item, fr); out = 'next'
            try: m.exec_body(s.body, fr)
            except BreakExc: out = 'break'
            except ContinueExc: pass
            m.prove('all attributes are compared', out == 'next')
            now = m.dicts[key].array(); other = m.ctx.fresh('other', V); m.assume(other != k); m.cover('an attribute')
            m.prove('reported exactly if it is gone' if old else 'reported, with its value, exactly if it was added or rebound or itself changed', z3.Select(now, k) == z3.If(want(k), some(value(k)), z3.Select(start, k)))
            m.prove('others are left alone', z3.Select(now, other) == z3.Select(start, other))
            raise PathEnd('an attribute')
        start = m.dicts[key].array(); k0 = term(g.k0); end = m.ctx.fresh('collected', KD)
        m.assume(z3.Select(end, k0) == z3.If(z3.And(OV.is_some(z3.Select(A, k0)), want(k0)), some(value(k0)), z3.Select(start, k0)))
        m.dicts[key] = DMap(end, (), K_STR, ANY)
        m.exec_body(s.orelse, fr)
    def items(self, m, s, fr, seq):
        """the loop ends at the first item that differs, and only there"""
        a, g = self.a, self.a.g; how = m.ctx.choose(3)
        def flags(): return {k: v for k, v in fr.vars.items() if isinstance(v, (C, SBool)) and m.pytype(v) is bool and k not in names}
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        if g.form == 'keys' and (not seq.src or seq.src[0] != 'dict' or not seq.src[1].eq(g.Q)): raise Unsupported('something else is gone over')
        if how == 2:
            m.assume(a.none_differs); a.ended = 'all compared'; return m.exec_body(s.orelse, fr)
        i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n]); item, w = a.at(seq, i); d = a.differs(w); before = flags()
        if how == 1: m.assume(d)
        m.assign(s.target, item, fr); out = 'next'
        try: m.exec_body(s.body, fr)
        except BreakExc: out = 'break'
        except ContinueExc: pass
        if how == 1:
            if out != 'break': raise PathEnd('refuted elsewhere')
            a.ended, a.witness = 'at an item', d; return
        m.cover('an item')
        m.prove('the loop ends exactly at an item that differs', z3_(out == 'break') == d)
        now = flags()
        if out == 'next': m.prove('and nothing is noted before', z3.And([z3_(m.truth(now[k])) == z3_(m.truth(v)) for k, v in before.items() if k in now] + [z3.BoolVal(True)]))
        raise PathEnd('an item')


COVERS = ['an attribute', 'an item', 'nothing differs', 'an item differs', 'not as many items', 'no attributes', 'no items']


@unit('C27', 'what changed', ['dill.__diff:whats_changed'], covers=COVERS, seconds=240)
def what_changed(m):
    """a memorised object that was not examined yet: any attributes, any items, any record; nested questions by the contract"""
    g = Graph(m); rec = Recorded(g); simple = m.sym('simple', K_BOOL); first = m.ctx.choose(2)
    seen = m.alloc(dict); S = m.ctx.fresh('seen', KD); m.dicts[seen.addr] = DMap(S, (), K_INT, ANY)
    a = Asking(g, rec, lambda: seen); a.ended = None; a.compared = False
    m.assume([Not(g.excluded), OV.is_absent(z3.Select(S, term(g.id)))])
    w = g.q0 if g.form == 'keys' else g.j0
    inside = z3.BoolVal(False) if g.form == 'none' else OV.is_some(z3.Select(g.Q, g.q0)) if g.form == 'keys' else z3.And(g.j0 >= 0, g.j0 < g.n)
    a.none_differs = z3.BoolVal(True) if g.form == 'none' else z3.Implies(inside, z3.Not(a.differs(w)))
    out, r = m.run(shadow(DIFF.whats_changed), [g.obj, seen, simple] + ([] if first else [C(False)]))
    m.prove('no exception', out == 'return')
    if out != 'return': return
    s = m.dget(seen, g.id)
    m.prove('the answer is kept', s is not ABSENT)
    if s is ABSENT or not isinstance(s, T) or len(s.items) != 2: m.prove('a pair', False); return
    attrs, seq = s.items
    if m.branch(simple): m.prove('the simple answer is a boolean', m.pytype(r) is bool)
    else: m.prove('the answer', r is s or isinstance(r, T) and len(r.items) == 2 and And(m.is_(r.items[0], attrs), m.eq(r.items[1], seq)))
    k0 = term(g.k0); d = m.dmap(attrs).array()
    if g.attrs is None: m.cover('no attributes'); m.prove('no attributes are reported', d.eq(EMPTYD))
    else:
        now, was = z3.Select(g.A, k0), z3.Select(rec.R, k0)
        m.prove('an attribute is reported with its value exactly if it was added, rebound or itself changed, and without one if it was removed',
                z3.Select(d, k0) == z3.If(OV.is_some(now), z3.If(a.rebound(k0, OV.val(now)), now, OV.absent), z3.If(OV.is_some(was), some(term(NONE)), OV.absent)))
    f = z3_(m.truth(seq)); m.prove('whether the contents changed is a boolean', m.pytype(seq) is bool)
    if g.form == 'none': m.cover('no items'); m.prove('no contents that change', z3.Not(f)); return
    n, rn = (dsize(g.Q), dsize(rec.S)) if g.form == 'keys' else (g.n, rec.n)
    if m.ctx.branch(n != rn): m.cover('not as many items'); m.prove('the contents changed', f)
    elif a.ended == 'at an item': m.cover('an item differs'); m.prove('the contents changed', f); m.prove('as an item differs', a.witness)
    else:
        m.cover('nothing differs'); m.prove('all items are compared', a.ended == 'all compared'); m.prove('the contents did not change', z3.Not(f))
    if m.ctx.branch(z3_(m.truth(simple))):
        m.prove('changed exactly if an attribute is reported or the contents changed', z3_(m.truth(r)) == z3.Or(f, z3_(m.truth(attrs))))


# ------------------------------------------------------------------ memorising
class Memorising:
    """recordings and nested calls for all attributes or items, each on an arbitrary one"""
    def __init__(self, g):
        self.g, self.m = g, g.m; m = g.m; self.calls = []; self.nested = set(); self.made = {}; self.empty = {}
        def inner(mm, a, kw):
            v = dict(zip(('obj', 'force'), a)); v.update(kw)
            mm.prove('others are not memorised again', 'force' not in v or Not(mm.truth(v['force'])))
            mm.prove('the object has its record before others are memorised', mm.dget(C(DIFF.memo), g.id) is not ABSENT)
            self.calls.append(v['obj']); return NONE
        m.overrides[host_rid(DIFF.memorise)] = inner
        m.loopspecs = Anywhere(self); m.ghost['comp_hooks'] = [self.comp]
        def mkdict(mm, a, kw):
            if len(a) == 1 and isinstance(a[0], O) and a[0].addr in self.made: return self.mapping(*self.made[a[0].addr])
            if a or kw: raise Unsupported('dict()')
            r = mm.alloc(dict); mm.dicts[r.addr] = DMap(); return r
        m.overrides[host_rid(dict)] = mkdict
    def entry(self, what, seq, item):
        """(key, value) of what is gone over; and that it is an entry"""
        g, m = self.g, self.m
        if what == 'attributes' or g.form == 'keys':
            A = g.A if what == 'attributes' else g.Q
            how = seq.src[2]; k = term(item.items[0]) if how == 'items' else term(item) if how == 'keys' else None
            if k is None: return None, term(item)
            m.assume(OV.is_some(z3.Select(A, k))); return k, OV.val(z3.Select(A, k))
        return None, term(item)
    def pick(self, seq):
        m = self.m
        if m.ctx.choose(2): m.assume(seq.n == 0); return None
        i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n]); return seq.get(i)
    def visited(self, what, k, v):
        m, g = self.m, self.g; got = [term(c) for c in self.calls]; self.calls = []
        need = [v] + ([k] if what == 'items' and g.form == 'keys' else [])
        if need[-1] is None: raise Unsupported('keys')
        m.cover('%s are memorised too' % what)
        for t in need: m.prove('all of the %s are memorised too' % what, z3.Or([z3.BoolVal(False)] + [c == t for c in got]))
        self.nested.add(what)
    def comp(self, m, x, fr):
        if len(x.generators) != 1 or x.generators[0].ifs: return None
        gen = x.generators[0]; seq = m.iterate(m.eval(gen.iter, fr))
        if not isinstance(seq, Seq): return None
        what, how = self.g.source(seq)
        sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield
        sub.locals.update(n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name))
        item = self.pick(seq); o = m.alloc(list); m.lists[o.addr] = LState([], seq.n, lambda i: m.as_kind(self.recorded(what)(self.g.z(i)), ANY))
        if item is None: self.nested.add(what); self.made[o.addr] = (what, x); return self.mapping(what, x) if isinstance(x, ast.DictComp) else o
        k, v = self.entry(what, seq, item); m.assign(gen.target, item, sub)
        e = T([m.eval(x.key, sub), m.eval(x.value, sub)]) if isinstance(x, ast.DictComp) else m.eval(x.elt, sub)
        if self.calls: self.visited(what, k, v); return o
        g = self.g
        if what == 'attributes' or g.form == 'keys':
            if not isinstance(e, T) or len(e.items) != 2 or k is None: raise Unsupported('a record')
            m.prove('the %s are recorded by %s' % (what, 'name' if what == 'attributes' else 'identity'), term(e.items[0]) == (k if what == 'attributes' else g.idt(k)))
            m.prove('with their identity', term(e.items[1]) == g.idt(v)); self.made[o.addr] = (what, x)
            return self.mapping(what, x) if isinstance(x, ast.DictComp) else o
        m.prove('the identity of each item is recorded', term(e) == g.idt(v)); return o
    def recorded(self, what): return lambda i: self.g.idt(self.g.at(i))
    def mapping(self, what, x):
        g, m = self.g, self.m; r = m.alloc(dict); G = m.ctx.fresh('recorded', KD); A, k = (g.A, term(g.k0)) if what == 'attributes' else (g.Q, g.q0)
        now = z3.Select(A, k); key = k if what == 'attributes' else g.idt(k)
        if what == 'attributes': m.assume(z3.Select(G, key) == z3.If(OV.is_some(now), some(g.idt(OV.val(now))), OV.absent))
        else: m.assume(z3.Implies(OV.is_some(now), z3.Select(G, key) == some(g.idt(OV.val(now)))))
        m.dicts[r.addr] = DMap(G, (), ANY, ANY); return r
    # statements
    def items(self, m, s, fr, seq):
        what, how = self.g.source(seq); item = self.pick(seq)
        if item is None: self.nested.add(what); return m.exec_body(s.orelse, fr)
        if any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(s)): raise Unsupported('a loop')
        k, v = self.entry(what, seq, item); m.assign(s.target, item, fr); before = dict(fr.vars)
        try: m.exec_body(s.body, fr)
        except ContinueExc: pass
        if not self.calls: raise Unsupported('a loop that records')
        self.visited(what, k, v)


@unit('C27', 'memorising', ['dill.__diff:memorise'], covers=['memorised', 'left alone', 'attributes are memorised too', 'items are memorised too'], seconds=120)
def memorising(m):
    """any object and memo: nothing for one with a record (unless forced) or one of the excluded; else its record, and all that it has"""
    g = Graph(m); mem = Memorising(g); given = m.ctx.choose(2); force = m.sym('force', K_BOOL) if given else C(False)
    out, r = m.run(shadow(DIFF.memorise), [g.obj] + ([force] if given else [])); f = z3_(m.truth(force))
    m.prove('no exception', out == 'return')
    if out != 'return': return
    M, O_ = m.dmap(C(DIFF.memo)).array(), m.dmap(C(DIFF.id_to_obj)).array(); idt = term(g.id); other = m.ctx.fresh('other', V)
    if m.ctx.branch(z3.Or(g.excluded, z3.And(g.memorised, z3.Not(f)))):
        m.cover('left alone'); m.prove('nothing is recorded', z3.And(M == g.M, O_ == g.O)); m.prove('and nothing else memorised', not mem.nested); return
    m.cover('memorised'); e = m.dget(C(DIFF.memo), g.id)
    m.prove('it has a record', e is not ABSENT)
    if e is ABSENT or not isinstance(e, T) or len(e.items) != 2: m.prove('of its attributes and items', False); return
    m.prove('the object is kept, so its identity is not reused', z3.Select(O_, idt) == some(term(g.obj)))
    m.assume(other != idt); m.prove('other records are left', z3.And(z3.Select(M, other) == z3.Select(g.M, other), z3.Select(O_, other) == z3.Select(g.O, other)))
    ra, rs = e.items
    if g.attrs is None: m.prove('no attributes', m.is_(ra, NONE))
    else:
        now = z3.Select(g.A, term(g.k0)); got = z3.Select(m.dmap(ra).array(), term(g.k0))
        m.prove('each attribute is recorded by its identity', got == z3.If(OV.is_some(now), some(g.idt(OV.val(now))), OV.absent))
        m.prove('attributes are memorised too', 'attributes' in mem.nested)
    if g.form == 'none': m.prove('no items', m.is_(rs, NONE)); return
    m.prove('items are memorised too', 'items' in mem.nested)
    if g.form == 'keys':
        now = z3.Select(g.Q, g.q0); m.assume(OV.is_some(now))
        m.prove('each item is recorded by its identity', z3.Select(m.dmap(rs).array(), g.idt(g.q0)) == some(g.idt(OV.val(now))))
    else:
        l = m.lists[rs.addr]; m.prove('as many', l.n == g.n); m.assume([g.j0 >= 0, g.j0 < g.n])
        m.prove('each item is recorded by its identity, in order', term(l.get(g.j0)) == g.idt(g.at(g.j0)))


# ------------------------------------------------------------------ answers
@unit('C27', 'answers that need no comparison', ['dill.__diff:whats_changed'], covers=['examined before', 'excluded', 'not memorised', 'a new question'], seconds=120)
def shortcuts(m):
    """objects examined before within a question, excluded ones, and ones without a record"""
    g = Graph(m, form='none', plain=1); simple = m.sym('simple', K_BOOL); how = ('seen', 'new', 'first off')[m.ctx.choose(3)]; seen = NONE
    S = EMPTYD
    if how != 'new': seen = m.alloc(dict); S = m.ctx.fresh('seen', KD); m.dicts[seen.addr] = DMap(S, (), K_INT, ANY)
    a, b = m.sym('its attributes', K_DICT), m.sym('its contents', K_BOOL); was = m.ctx.choose(2) if how != 'new' else 0
    if was: m.dset(seen, g.id, T([a, b])); S = m.dmap(seen).array()
    else: m.assume(OV.is_absent(z3.Select(S, term(g.id))))
    m.assume(z3.Or(z3.BoolVal(bool(was)), g.excluded, z3.Not(g.memorised)))
    asked = []
    for f in (DIFF.get_attrs, DIFF.get_seq): m.overrides[host_rid(f)] = lambda mm, aa, kw: (asked.append(1), NONE)[1]
    m.overrides[host_rid(DIFF.whats_changed)] = lambda mm, aa, kw: (asked.append(1), C(False))[1]
    old = m.overrides.get(host_rid(str)); m.overrides[host_rid(str)] = lambda mm, aa, kw: mm.sym('its text', K_STR) if aa and mm.is_(aa[0], g.obj) is True else mm.env.models[host_rid(str)](mm, aa, kw)
    args = [g.obj] if how == 'new' else [g.obj, seen]
    kw = {'simple': simple}
    if how == 'first off': kw['first'] = C(False)
    out, r = m.run(shadow(DIFF.whats_changed), args, kw); s = m.branch(simple)
    m.prove('nothing is compared', not asked)
    if was or m.ctx.branch(g.excluded):
        m.prove('no exception', out == 'return')
        if out != 'return': return
        if was: m.cover('examined before')
        else: m.cover('excluded')
        if how == 'new': m.cover('a new question')
        if s: m.prove('a boolean', m.pytype(r) is bool); m.prove('as found before' if was else 'not changed', z3_(m.truth(r)) == (z3.Or(z3_(m.truth(a)), z3_(m.truth(b))) if was else z3.BoolVal(False)))
        else:
            items = r.items if isinstance(r, T) else [m.getitem(r, C(0)), m.getitem(r, C(1))]
            if was: m.prove('as found before', And(m.is_(items[0], a), m.eq(items[1], b)))
            else: m.prove('nothing changed', And(Not(m.truth(items[0])), Not(m.truth(items[1]))))
        if how != 'new': m.prove('the answer is kept', m.dget(seen, g.id) is not ABSENT)
        return
    m.cover('not memorised')
    if s: m.prove('taken as changed', out == 'return' and m.pytype(r) is bool and m.truth(r))
    else: m.prove('refused', out == 'raise' and m.isinst_formula(r, RuntimeError))


@unit('C27', 'the simple answer', ['dill.__diff:has_changed'], covers=['asked'], seconds=60)
def simple_answer(m):
    """the simple answer is that of the full question, whatever else is given"""
    got = []; ans = m.sym('answer', K_BOOL); m.overrides = dict(m.overrides)
    import inspect; sig = inspect.signature(DIFF.whats_changed)
    def q(mm, a, kw): got.append((a, kw)); return ans
    m.overrides[host_rid(DIFF.whats_changed)] = q
    obj, seen, simple = m.sym('obj', ANYREF), m.sym('seen', K_DICT), m.sym('simple', ANY); n = m.ctx.choose(3)
    kw = [{}, {'seen': seen}, {'simple': simple}][n]
    out, r = m.run(DIFF.has_changed, [obj], kw)
    m.prove('asked once', out == 'return' and len(got) == 1)
    if not got: return
    m.cover('asked'); b = sig.bind(*got[0][0], **got[0][1]).arguments
    m.prove('about the object', m.is_(b['obj'], obj)); m.prove('simply', m.truth(b.get('simple', C(False)))); m.prove('as an outermost question', m.truth(b.get('first', C(True))))
    m.prove('with what was examined', m.is_(b.get('seen', NONE), seen if n == 1 else NONE)); m.prove('its answer', r is ans or m.eq(r, ans))


# ------------------------------------------------------------------ what an object has
@unit('C27', 'the attributes of an object', ['dill.__diff:get_attrs'], covers=['a plain object', 'a plain class', 'with attributes', 'without'], seconds=60)
def attributes_of(m):
    """its namespace; none for objects of the plain built-in types and for these types"""
    how = m.ctx.choose(3); d = m.sym('namespace', K_DICT); has = m.ctx.choose(2)
    own = {'__dict__': lambda mm, t: d if has else ABSENT}; plain = sorted(DIFF.builtins_types, key=lambda t: t.__name__)
    m.prove('the plain types', set(plain) == {str, list, dict, set, frozenset, int})
    if how == 0: t = plain[m.ctx.choose(len(plain))]; obj = m.sym('obj', {str: K_STR, int: K_INT}.get(t) or Kind('plain', pytype=t, cons='ref', attrs=own)); none = True; m.cover('a plain object')
    elif how == 1: t = plain[m.ctx.choose(len(plain))]; obj = C(t); none = True; m.cover('a plain class')
    else: obj = m.sym('obj', Kind('object', pytype=types.SimpleNamespace, cons='ref', attrs=own)); none = not has; m.cover('with attributes' if has else 'without')
    out, r = m.run(DIFF.get_attrs, [obj])
    m.prove('no exception', out == 'return')
    if out != 'return': return
    m.prove('its attributes', m.is_(r, NONE if none else d))


@unit('C27', 'the items of an object', ['dill.__diff:get_seq'], covers=['a container', 'one that copies', 'no container', 'known before', 'not known', 'in the table', 'an array'], seconds=60)
def items_of(m):
    """the items of a container, by its class; what is kept of a class agrees with the class"""
    fn = DIFF.get_seq; cache = fn.__defaults__[0]; base = {str: False, frozenset: True, list: True, set: True, dict: True, tuple: True, type: False, types.ModuleType: False, types.FunctionType: False, types.BuiltinFunctionType: False}
    m.prove('the table', all(cache.get(k) is v for k, v in base.items()))
    import numpy
    copies = []
    def copy(mm, o, a, kw): copies.append(o); return mm.sym('its copy', ANYREF)
    how = m.ctx.choose(3)
    if how == 0:
        t = list(base)[m.ctx.choose(len(base))]; m.cover('in the table')
        obj = m.sym('obj', Kind('object', pytype=t, cons='ref', attrs={'__class__': C(t)}, methods={'copy': copy}))
        out, r = m.run(fn, [obj]); m.prove('no exception', out == 'return')
        if out != 'return': return
        m.prove('items, or not', (not m.is_(r, NONE) is True) == base[t])
        if base[t]: m.prove('a copy, or the object itself', m.is_(r, obj) if not copies else bool(copies))
        return
    if how == 1 and DIFF.HAS_NUMPY:
        m.cover('an array'); shape, size = m.sym('shape', K_TUPLE), m.sym('size', K_INT)
        obj = m.sym('obj', Kind('array', pytype=numpy.ndarray, cons='ref', attrs={'__class__': C(numpy.ndarray), 'shape': shape, 'size': size}))
        out, r = m.run(fn, [obj]); m.prove('no exception', out == 'return')
        if out != 'return': return
        if m.ctx.branch(z3.And(z3_(m.truth(shape)), z3_(m.truth(size)))): m.prove('the array', m.is_(r, obj))
        else: m.prove('no items', m.pytype(r) in (list, tuple) and Not(m.truth(r)))
        return
    names = ('__contains__', '__iter__', '__len__', 'copy'); has = {n: m.ctx.choose(2) for n in names}; more = {n: has[n] or m.ctx.choose(2) for n in names[:3]}
    cls = m.sym('its_class', Kind('a_class', isa=(type,), cons='ref', attrs={n: (lambda mm, t, n=n: mm.sym(n, ANYREF) if has[n] else ABSENT) for n in names}))
    A = m.ctx.fresh('cache', KD); cont = bool(has['__contains__'] and has['__iter__'] and has['__len__'])
    m.dicts[host_rid(cache)] = DMap(A, (), ANY, K_BOOL); was = z3.Select(A, term(cls)); m.assume(z3.Or(OV.is_absent(was), was == some(V.boolv(cont))))
    for t in (numpy.ndarray, numpy.ma.core.MaskedConstant): m.assume(Not(m.is_(cls, C(t))))
    obj = m.sym('obj', Kind('object', pytype=None, cons='ref', attrs={'__class__': cls, **{n: (lambda mm, t, n=n: mm.sym('its ' + n, ANYREF) if more[n] else ABSENT) for n in names[:3]}}, methods={'copy': copy}))
    m.ghost['type_hook'] = None
    out, r = m.run(fn, [obj]); m.prove('no exception', out == 'return')
    if out != 'return': return
    m.cover('known before' if m.ctx.branch(OV.is_some(was)) else 'not known')
    now = z3.Select(m.dmap(C(cache)).array(), term(cls)); m.prove('what is kept agrees with the class', z3.Or(OV.is_absent(now), now == some(V.boolv(cont))))
    if not cont: m.cover('no container'); m.prove('no items', m.is_(r, NONE)); return
    m.cover('one that copies' if has['copy'] else 'a container')
    m.prove('its items', bool(copies) and Not(m.is_(r, NONE)) if has['copy'] else m.is_(r, obj))


# ------------------------------------------------------------------ imports and what is gone
class NewModules(dict):
    def __init__(self, e): self.e = e
    def get(self, k, d=None): return [self]
    def matches(self, m, s, fr): return True
    def run_for(self, m, s, fr, seq):
        e = self.e
        if not isinstance(seq, Seq) or not e.isnew: raise Unsupported('a loop')
        x = m.ctx.fresh('x', V); member = e.isnew(seq); 
        if m.ctx.choose(2): e.looped = True; m.exec_body(s.orelse, fr); return
        m.assume(member(x)); m.assign(s.target, m.as_kind(x, K_STR), fr); out = 'next'
        try: m.exec_body(s.body, fr)
        except BreakExc: out = 'break'
        except ContinueExc: pass
        m.cover('a new module'); m.prove('all of them', out == 'next'); m.prove('a module that was not there is memorised', z3.Implies(e.new(x), z3.Or([z3.BoolVal(False)] + [term(c) == OV.val(z3.Select(e.after, x)) for c in e.calls])))
        raise PathEnd('a new module')


@unit('C27', 'modules are memorised', ['dill.__diff:_imp'], covers=['a new module', 'imported'], seconds=60)
def imports(m):
    """an import gives what the import gives, and every module that it adds is memorised"""
    class E_: pass
    e = E_(); e.calls = []; e.looped = False; m.overrides = dict(m.overrides)
    import sys as _sys
    before, e.after = m.ctx.fresh('modules_before', KD), m.ctx.fresh('modules_after', KD); mk = host_rid(_sys.modules); m.dicts[mk] = DMap(before, (), K_STR, ANYREF)
    e.new = lambda x: z3.And(OV.is_some(z3.Select(e.after, x)), OV.is_absent(z3.Select(before, x)))
    mod = m.sym('module', ANYREF); given = []
    def imp(mm, a, kw): given.append((a, kw)); mm.dicts[mk] = DMap(e.after, (), K_STR, ANYREF); return mod
    m.overrides[host_rid(DIFF.__import__)] = imp
    m.overrides[host_rid(DIFF.memorise)] = lambda mm, a, kw: (mm.prove('memorised after the import', bool(given)), e.calls.append(a[0]), NONE)[2]
    def isnew(seq):
        s = seq.src
        if s and s[0] == 'set' and len(s) > 1: A = m.sstate(s[1]).array(); return lambda x: z3.Select(A, x)
        if s and s[0] == 'dict': return lambda x: OV.is_some(z3.Select(s[1], x))
        raise Unsupported('which modules')
    e.isnew = isnew; m.loopspecs = NewModules(e)
    args = [m.sym('name', K_STR)] + [m.sym('globals', K_DICT), m.sym('locals', K_DICT), m.sym('fromlist', K_TUPLE), m.sym('level', K_INT)][:4 * m.ctx.choose(2)]
    try: out, r = m.run(DIFF._imp, args)
    except PathEnd: raise
    m.prove('no exception', out == 'return'); m.prove('what the import gives', r is mod or m.is_(r, mod))
    m.prove('imported once, as asked', len(given) == 1 and len(given[0][0]) == len(args) and And(*[m.is_(p, q) if not isinstance(q, SStr) else m.eq(p, q) for p, q in zip(given[0][0], args)]))
    m.prove('the new modules are gone over', e.looped); m.cover('imported')


@unit('C27', 'objects that are gone', ['dill.__diff:release_gone'], covers=['let go', 'kept'], seconds=60)
def gone(m):
    """the records and the objects kept for them go together: one that nothing else refers to loses both, others keep both"""
    M, O_ = m.ctx.fresh('memo', KD), m.ctx.fresh('objects', KD); m.dicts[host_rid(DIFF.memo)] = DMap(M, (), K_INT, ANYREF); m.dicts[host_rid(DIFF.id_to_obj)] = DMap(O_, (), K_INT, ANYREF)
    x = m.ctx.fresh('x', V); m.overrides = dict(m.overrides); refs = m.sym('references', K_INT); done, copied = [], []
    m.assume(OV.is_some(z3.Select(M, x)) == OV.is_some(z3.Select(O_, x)))        # the invariant: kept by memorising
    m.overrides[host_rid(DIFF.getrefcount)] = lambda mm, a, kw: (mm.prove('of the object', term(a[0]) == OV.val(z3.Select(O_, x))), refs)[1]
    def each(seq, target, ifs, body, fr):
        if not isinstance(seq, Seq) or not seq.src: raise Unsupported('what is gone over')
        src = seq
        if src.src[0] == 'list': raise Unsupported('a list')
        if src.src[0] != 'dict' or not (src.src[1].eq(O_) or src.src[1].eq(M)): raise Unsupported('what is gone over')
        if not copied: raise Unsupported('changed while it is gone over')
        m.assume(OV.is_some(z3.Select(O_, x))); k, v = m.as_kind(x, K_INT), m.as_kind(OV.val(z3.Select(src.src[1], x)), ANYREF)
        m.assign(target, {'keys': k, 'values': v}.get(src.src[2]) or T([k, v]), fr)
        if all(m.branch(m.eval(c, fr)) for c in ifs): body()
        done.append(1)
    def comp(mm, e, fr):
        if len(e.generators) != 1: return None
        g = e.generators[0]; seq = mm.iterate(mm.eval(g.iter, fr)); sub = Frame(fr, fr.module, fr.fn); sub.comp = True; sub.on_yield = fr.on_yield
        sub.locals.update(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))
        each(seq, g.target, g.ifs, lambda: mm.eval(e.elt, sub), sub); return mm.new_list([])
    m.ghost['comp_hooks'] = [comp]
    class L(dict):
        def get(self, k, d=None): return [self]
        def matches(self, mm, s, fr): return True
        def run_for(self, mm, s, fr, seq):
            def body():
                try: mm.exec_body(s.body, fr)
                except ContinueExc: pass
            each(seq, s.target, [], body, fr); mm.exec_body(s.orelse, fr)
    m.loopspecs = L()
    def aslist(mm, a, kw):        # what is gone over is copied first, as it is changed on the way
        seq = mm.iterate(a[0])
        if isinstance(seq, Seq) and seq.src and seq.src[0] == 'dict': copied.append(1); return a[0]
        raise Unsupported('list()')
    m.overrides[host_rid(list)] = aslist
    out, r = m.run(DIFF.release_gone, [])
    m.prove('no exception', out == 'return')
    if out != 'return': return
    m.prove('gone over once', len(done) == 1)
    if not done: return
    has = lambda d: OV.is_some(z3.Select(m.dmap(C(d)).array(), x)); a, b = has(DIFF.memo), has(DIFF.id_to_obj)
    m.prove('record and object go together', a == b)
    if m.ctx.branch(z3_(a)): m.cover('kept'); m.prove('those that are kept are as before', z3.And(z3.Select(m.dmap(C(DIFF.memo)).array(), x) == z3.Select(M, x), z3.Select(m.dmap(C(DIFF.id_to_obj)).array(), x) == z3.Select(O_, x)))
    else: m.cover('let go')
