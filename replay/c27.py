from oracle import *
import dill, sys, os, random, types, collections, itertools
import importlib
diff = importlib.import_module('dill.__diff')


class A: pass
class Slots:
    __slots__ = ('x', '__dict__')
class L(list): pass
class Dc(dict): pass
class St(set): pass
class Fs(frozenset): pass
class Tp(tuple): pass
class Bag:
    """a container of its own"""
    def __init__(self, *a): self.held = list(a); self.__dict__['other'] = 1
    def __contains__(self, x): return x in self.held
    def __iter__(self): return iter(list(self.held))
    def __len__(self): return len(self.held)
class Maps(collections.UserDict): pass
class Meta(type): pass
PLAIN = (str, bytes, int, float, bool, type(None), complex)


SEQ = (list, set, frozenset, dict, tuple, collections.deque, collections.UserDict, Bag)


def attributes(o):
    if type(o) in (str, list, dict, set, frozenset, int): return {}
    return dict(getattr(o, '__dict__', {}))


def items(o):
    """the items of a container: by position, by key, or in no order"""
    if not isinstance(o, SEQ) or isinstance(o, type): return None
    if isinstance(o, (dict, collections.UserDict)): return {id(k): (k, v) for k, v in o.items()}
    if isinstance(o, (set, frozenset)): return {id(i): (i, i) for i in o}
    return dict(enumerate((i, i) for i in o))


def state(o): return attributes(o), items(o)


class Memo:
    """what the objects were when they were memorised"""
    def __init__(self): self.of = {}
    def add(self, o, force=False):
        if id(o) in self.of and not force: return
        self.of[id(o)] = (o, state(o)); a, s = self.of[id(o)][1]
        for v in a.values(): self.add(v)
        for k, v in (s or {}).values(): self.add(k); self.add(v)
    def direct(self, o):
        """(attributes added, rebound or removed; whether items were added, removed or replaced)"""
        if id(o) not in self.of: return None
        (a, s), (a0, s0) = state(o), self.of[id(o)][1]
        attrs = {k for k in set(a) | set(a0) if (k in a) != (k in a0) or a[k] is not a0[k]}
        if s is None: return attrs, False
        return attrs, s0 is None or set(s) != set(s0) or any(s[k][0] is not s0[k][0] or s[k][1] is not s0[k][1] for k in s)
    def children(self, o):
        a, s = state(o); return [*a.values(), *(x for kv in (s or {}).values() for x in kv)]
    def changed(self, o):
        seen = {}; todo = [o]
        while todo:
            x = todo.pop()
            if id(x) in seen: continue
            seen[id(x)] = x; d = self.direct(x)
            if d is None or d[0] or d[1]: return True
            todo += self.children(x)
        return False
    def shape(self, o, depth=3):
        a, s = state(o)
        if depth < 0 or not a and s is None: return type(o).__name__
        return '%s(%s; %s)' % (type(o).__name__, ', '.join('%s=%s' % (k, self.shape(v, depth-1)) for k, v in a.items()), ', '.join(self.shape(v, depth-1) for kv in (s or {}).values() for v in kv[1:]))
    def report(self, o):
        d = self.direct(o); a, s = state(o)
        return d[0] | {k for k, v in a.items() if self.changed(v)}, d[1] or any(self.changed(x) for kv in (s or {}).values() for x in kv)


def reaches_itself(memo, o):
    """whether a cycle can be reached"""
    done, path = {}, {}
    def visit(x):
        if id(x) in path: return True
        if id(x) in done: return False
        path[id(x)] = x
        try: r = any(visit(c) for c in memo.children(x))
        finally: del path[id(x)]
        done[id(x)] = x; return r
    return visit(o)


def compare(memo, nodes, rng, what):
    for o in rng.sample(nodes, min(4, len(nodes))):
        if id(o) not in memo.of:
            if id(o) in diff.memo: continue      # something the whole process shares, such as ()
            raises(RuntimeError, diff.whats_changed, o); check(diff.has_changed(o) is True, 'never memorised'); continue
        want = memo.changed(o); got = diff.has_changed(o)
        check(got is want, '%s: changed %r, expected %r: %s' % (what, got, want, memo.shape(o)))
        attrs, seq = diff.whats_changed(o)
        check(bool(attrs) or bool(seq) if want else not attrs and not seq, '%s: what changed %r %r, expected %r' % (what, attrs, seq, want))
        check(diff.whats_changed(o, simple=True) is want, 'the simple answer')
        wa, ws = memo.report(o); da, ds = memo.direct(o); now = attributes(o)
        check(da <= set(attrs) <= wa, '%s: attributes %r, expected %r' % (what, attrs, wa)); check(seq is True or not ds, 'contents'); check(ws or seq is False, 'contents that did not change')
        for k, v in attrs.items(): check(v is now.get(k) if k in now else v is None, 'the value of %r' % k)
        if not reaches_itself(memo, o): check((set(attrs), seq) == (wa, ws), '%s: reports %r, expected %r' % (what, (attrs, seq), (wa, ws)))


def build(rng, n, cyclic=True):
    nodes = [rng.choice([5, 'text', None, 2.5, b'x', 'λμ', 10**9]) for _ in range(2)]
    hashable = lambda: [x for x in nodes if isinstance(x, (A, Slots, types.FunctionType, type, str, int, Bag, *PLAIN))]
    for i in range(n):
        some = lambda k=3: rng.sample(nodes, min(len(nodes), rng.randrange(k + 1)))
        keys = lambda: rng.sample(hashable(), min(len(hashable()), rng.randrange(4)))
        kind = rng.randrange(16)
        if kind == 0: o = some()
        elif kind == 1: o = dict(zip(keys(), some()))
        elif kind == 2: o = set(keys())
        elif kind == 3: o = tuple(some())
        elif kind == 4: o = L(some())
        elif kind == 5: o = Dc(zip(keys(), some()))
        elif kind == 6: o = collections.deque(some())
        elif kind == 7: o = Bag(*some())
        elif kind == 8: o = (lambda: 0)
        elif kind == 9: o = types.ModuleType('mod%d' % i)
        elif kind == 10: o = frozenset(keys())
        elif kind == 11: o = St(keys())
        elif kind == 12: o = Maps(dict(zip(keys(), some())))
        elif kind == 13: o = rng.choice([Fs(keys()), Tp(some()), Slots()])
        else: o = A()
        for v in some():
            try: setattr(o, rng.choice(NAMES), v)
            except AttributeError: pass
        nodes.append(o)
    if cyclic:
        for _ in range(n):
            mutate(rng, rng.choice(nodes), nodes, hashable())
    return nodes


NAMES = ['a', 'b', 'c', '_d', '__f__', 'x y']


def mutate(rng, o, nodes, hashable):
    v = rng.choice(nodes); how = rng.randrange(4)
    try:
        if how == 0: setattr(o, rng.choice(NAMES + ['e']), v)
        elif how == 1:
            n = rng.choice(sorted(attributes(o))) if attributes(o) else None
            if n in NAMES + ['e']: delattr(o, n)
        elif isinstance(o, (list, collections.deque)):
            if how == 2 or not o: o.append(v)
            else: rng.choice([lambda: o.pop(), lambda: o.__setitem__(rng.randrange(len(o)), v), lambda: o.reverse(), lambda: o.insert(0, v)])()
        elif isinstance(o, (dict, collections.UserDict)):
            if how == 2 or not o: o[rng.choice(hashable)] = v
            else: k = rng.choice(list(o)); rng.choice([lambda: o.pop(k), lambda: o.__setitem__(k, v)])()
        elif isinstance(o, set):
            if how == 2 or not o: o.add(rng.choice(hashable))
            else: o.discard(rng.choice(list(o)))
        elif isinstance(o, Bag): o.held.append(v)
    except AttributeError: pass


def run_graphs(cyclic, n, seed=0):
    rng = random.Random(Counter.seed * 77 + seed); sys.setrecursionlimit(20000)
    for k in range(n * (6 if Counter.tier == 'thorough' else 1)):
        nodes = build(rng, rng.randrange(2, 9), cyclic); memo = Memo()
        hs = [x for x in nodes if isinstance(x, (A, Slots, *PLAIN))]
        for o in rng.sample(nodes, rng.randrange(1, len(nodes) + 1)): diff.memorise(o); memo.add(o)
        compare(memo, nodes, rng, 'nothing done')
        for step in range(rng.randrange(5)):
            if rng.random() < .2: o = rng.choice(nodes); f = rng.random() < .6; diff.memorise(o, force=f) if rng.random() < .5 or not f else diff.memorise(o, f); memo.add(o, f)
            elif cyclic: mutate(rng, rng.choice(nodes), nodes, hs)
            else: i = rng.randrange(2, len(nodes)); mutate(rng, nodes[i], nodes[:i], [h for h in hs if any(h is x for x in nodes[:i])] or [5])
            compare(memo, nodes, rng, 'step %d of graph %d' % (step, k))


@case('graphs without cycles')
def _(): run_graphs(False, 400)
@case('graphs with cycles')
def _(): run_graphs(True, 400, 1)


@case('sets')
def _():
    rng = random.Random(Counter.seed)
    for k in range(200):
        kind = rng.choice([set, St]); s = kind(A() for _ in range(rng.randrange(12))); diff.memorise(s); hold = list(s); h = A(); h.s = s; diff.memorise(h)
        more = [A() for _ in range(rng.choice([1, 5, 100]))]
        s.update(more); check(diff.has_changed(s) and diff.has_changed(h), 'items added'); eq(diff.whats_changed(h), ({'s': s}, False))
        for x in more: s.discard(x)
        eq(diff.has_changed(s), False, 'the same items again'); eq(diff.has_changed(h), False)
        if not hold: continue
        x = rng.choice(hold); s.discard(x); s.add(A()); eq(diff.whats_changed(s), ({}, True), 'an item replaced')
        diff.memorise(s, force=True); eq(diff.whats_changed(s), ({}, False)); rng.choice(list(s)).attr = 5; eq(diff.whats_changed(s), ({}, True), 'an item that changed')


@case('dicts')
def _():
    for kind in (dict, Dc, Maps, collections.OrderedDict, collections.defaultdict):
        k, v, w = A(), A(), A(); d = kind(); d[k] = v; d['x'] = w; diff.memorise(d); eq(diff.whats_changed(d), ({}, False))
        k.a = 1; eq(diff.whats_changed(d)[1], True, 'a key that changed'); del k.a; eq(diff.has_changed(d), False)
        d[k], d['x'] = w, v; eq(diff.whats_changed(d)[1], True, 'exchanged'); d[k], d['x'] = v, w; eq(diff.has_changed(d), False)
        d['y'] = d.pop('x'); eq(diff.whats_changed(d)[1], True, 'another key'); d['x'] = d.pop('y'); eq(diff.has_changed(d), False)
        v.a = 1; eq(diff.whats_changed(d)[1], True, 'a value that changed'); del v.a; d.clear(); eq(diff.whats_changed(d)[1], True, 'emptied')


@case('classes, functions and modules')
def _():
    class K: x = 1
    def f(): pass
    m = types.ModuleType('m'); g = (lambda: 0)
    for o in (K, f, m, g):
        v = o.attr = A(); diff.memorise(o); eq(diff.whats_changed(o), ({}, False)); eq(diff.has_changed(o), False)
        o.attr = w = A(); eq(diff.whats_changed(o), ({'attr': w}, False)); o.attr = v; eq(diff.has_changed(o), False)
        v.b = 1; eq(diff.whats_changed(o), ({'attr': v}, False)); del v.b; o.more = None; eq(diff.whats_changed(o), ({'more': None}, False)); del o.more
        del o.attr; eq(diff.whats_changed(o), ({'attr': None}, False)); diff.memorise(o); eq(diff.has_changed(o), True); diff.memorise(o, True); eq(diff.whats_changed(o), ({}, False))
    h = A(); h.k = K(); h.k.cls = K; diff.memorise(h); K.x = A(); eq(diff.has_changed(h), True)


@case('answers')
def _():
    o = A(); raises(RuntimeError, diff.whats_changed, o); eq(diff.has_changed(o), True); eq(diff.whats_changed(o, simple=True), True); check(id(o) not in diff.memo, 'asking does not memorise')
    o.x = x = [A()]; diff.memorise(o); x[0].y = 1
    eq(diff.whats_changed(o), ({'x': x}, False)); eq(diff.has_changed(o), True); eq(diff.has_changed(o, simple=False), True); eq(diff.whats_changed(o, simple=True), True)
    seen = {}; eq(diff.whats_changed(o, seen), ({'x': x}, False)); eq(diff.whats_changed(o, seen=seen), ({'x': x}, False)); eq(diff.has_changed(o, seen), True); eq(diff.has_changed(x, seen), True); eq(diff.whats_changed(x, seen), ({}, True))
    eq(diff.has_changed(diff.memo), False); eq(diff.has_changed(sys.modules), False); eq(tuple(diff.whats_changed(sys.modules)), ({}, False))
    h = A(); h.m = sys.modules; diff.memorise(h); sys.modules['c27_more'] = types.ModuleType('c27_more'); eq(diff.has_changed(h), False)
    n = A(); n.a = A(); diff.memorise(n); n.a = A(); n.b = 1; del n.a; eq(diff.whats_changed(n), ({'a': None, 'b': 1}, False))
    import builtins; builtins._ = 5; diff.has_changed(o); check(not hasattr(builtins, '_'), 'the last result of the interpreter is no change'); diff.has_changed(o)
    long = []; l = long
    for _ in range(100): l.append([]); l = l[0]
    diff.memorise(long); eq(diff.has_changed(long), False); l.append(long); eq(diff.has_changed(long), True); diff.memorise(l, force=True); eq(diff.has_changed(long), False)


@case('classes of the same name')
def _():
    def make(*names):
        ns = {'__len__': lambda self: len(self.s), '__iter__': lambda self: iter(self.s), '__contains__': lambda self, x: x in self.s, '__init__': lambda self: setattr(self, 's', [])}
        return type('Bag', (), {k: v for k, v in ns.items() if k in names or k == '__init__'})
    full = ('__len__', '__iter__', '__contains__')
    for order in (0, 1):
        for names in [()] + [full[:i] + full[i + 1:] for i in range(3)]:
            pair = [(make(*names), False), (make(*full), True)]
            for cls, holds in (pair if order else pair[::-1]):
                o = cls(); o.s.append(A()); diff.memorise(o); eq(diff.whats_changed(o), ({}, False))
                o.s.append(A()); eq(diff.whats_changed(o), ({'s': o.s}, holds)); del o.s[1]; eq(diff.has_changed(o), False); tick()


@case('modules are memorised when they are imported')
def _():
    with open('c27_module.py', 'w') as f: f.write('import c27_other\nx = []\nclass K: pass\n')
    with open('c27_other.py', 'w') as f: f.write('y = [1]\n')
    sys.path.insert(0, os.getcwd()); import c27_module; import c27_other
    eq(diff.whats_changed(c27_module), ({}, False)); c27_module.x.append(1); eq(diff.whats_changed(c27_module), ({'x': [1]}, False)); c27_other.y = 2; eq(set(diff.whats_changed(c27_module)[0]), {'x', 'c27_other'})
    import json; eq(diff.has_changed(json.JSONDecodeError), False)
    from c27_module import K; check(K is c27_module.K); raises(ImportError, lambda: __import__('nothing_like_this'))
    with open('c27_loads.py', 'w') as f: f.write('import importlib\nimportlib.import_module("c27_third")\n')
    with open('c27_third.py', 'w') as f: f.write('z = [1]\n')
    import c27_loads; third = sys.modules['c27_third']; eq(diff.has_changed(third), False); third.z = 5; eq(diff.whats_changed(third), ({'z': 5}, False))


@case('containers that make their items')
def _():
    import array, numpy
    for o in (range(1000, 1010), array.array('d', [1.5, 2.5]), numpy.arange(1000.), numpy.zeros((2, 2)), type('S', (str,), {})('λμ')):
        diff.memorise(o); eq(diff.has_changed(o), False, repr(type(o)))


@case('enumerations')
def _():
    import enum
    class E(enum.Enum): items = 1; copy = 2
    class F(enum.Enum): items = [].append; keys = 2
    for o in (E, F, E.copy):
        h = A(); h.o = o; diff.memorise(h); eq(diff.has_changed(h), False, repr(o)); h.o2 = o; eq(diff.has_changed(h), True)
