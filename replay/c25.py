from oracle import *
import dill, gc, sys, random, types
from dill import pointers as P
import dill._dill as D
from dill.pointers import parents, children, parent, at


class Node:
    __slots__ = ('kids', 'name', '__weakref__')
    def __init__(self, name): self.name = name; self.kids = None
    def __repr__(self): return '<%s>' % self.name
class Goal(Node): __slots__ = ()
class Other(Node): __slots__ = ()
class Twin(Node):
    __slots__ = ()
    __hash__ = None
    def __eq__(self, other): return True
class Hostile(Node):
    __slots__ = ()
    def __eq__(self, other): raise ValueError('compared')
    def __hash__(self): raise ValueError('hashed')
class TwinGoal(Goal, Twin): __slots__ = ()


def referents(o): return gc.get_referents(o)
def referrers(o): return gc.get_referrers(o)


def bfs(start, edges, pred, depth, ignored):
    """lengths of the shortest chains: None if there is none"""
    if pred(start): return 0
    seen = {id(start)}; level = [start]
    for d in range(1, depth + 1):
        nxt = []
        for t in level:
            for s in edges(t):
                if id(s) in seen or id(s) in ignored: continue
                seen.add(id(s)); nxt.append(s)
                if pred(s): return d
        level = nxt
    return None


def verify(chain, start, edges, pred, depth, ignored, best, what):
    check(type(chain) is list and chain, what)
    check(chain[0] is start, what + ': one end is the object')
    if len(chain) > 1:
        check(pred(chain[-1]), what + ': the other end is of the type')
        check(len(chain) - 1 <= depth, what + ': too long')
        for a, b in zip(chain, chain[1:]): check(any(x is b for x in edges(a)), what + ': not linked')
        check(not any(id(x) in ignored for x in chain[1:]), what + ': ignored object')
        check(len({id(x) for x in chain}) == len(chain), what + ': repeated')
    check(len(chain) - 1 == (best or 0), '%s: length %d, shortest %r' % (what, len(chain) - 1, best))


def graph(rng, n):
    ns = [rng.choice([Node, Node, Goal, Other, Twin, Twin, Hostile, TwinGoal])('n%d' % i) for i in range(n)]
    for x in ns:
        kids = [rng.choice(ns) for _ in range(rng.randrange(3))]
        x.kids = rng.choice([list, tuple])(kids) if kids else None
    return ns


@case('parents of random graphs', timeout=120)
def random_parents():
    rng = random.Random(Counter.seed)
    for _ in range(12 if Counter.tier == 'quick' else 120):
        ns = graph(rng, rng.randrange(2, 14))
        for _ in range(6):
            start = rng.choice(ns); typ = rng.choice([Goal, (Goal, Other), Other, list, (tuple, Other)]); depth = rng.randrange(0, 8)
            ign = tuple(rng.sample(ns, min(len(ns), rng.randrange(3))))
            if rng.random() < .3: ign += tuple(x.kids for x in ns if x.kids)[:1]
            arg = ign if rng.random() < .8 else list(ign)
            ignored = {id(x) for x in ign}
            pred = lambda x: isinstance(x, typ)
            best = bfs(start, referents, pred, depth, ignored)
            verify(parents(start, typ, depth, arg), start, referents, pred, depth, ignored, best, 'parents depth %d' % depth)
            p = parent(start, typ, arg); b1 = bfs(start, referents, pred, 1, ignored)
            check((p is None) == (b1 in (None, 0)), 'parent')
            if p is not None: check(pred(p) and any(x is p for x in referents(start)) and id(p) not in ignored, 'parent is not one')


@case('children of random graphs', timeout=120)
def random_children():
    rng = random.Random(Counter.seed + 1)
    for _ in range(4 if Counter.tier == 'quick' else 40):
        ns = graph(rng, rng.randrange(2, 10))
        # only the graph: everything else that refers to a node is left out by its type or ignored
        own = {id(x) for x in ns} | {id(x.kids) for x in ns if x.kids}
        edges = lambda o: [r for r in referrers(o) if id(r) in own]
        for _ in range(4):
            start = rng.choice(ns); depth = rng.randrange(0, 5); typ = rng.choice([Goal, (Goal, Other), Other])
            ign = tuple(rng.sample([x for x in ns], rng.randrange(2)))
            ignored = {id(x) for x in ign}
            pred = lambda x: isinstance(x, typ)
            best = bfs(start, edges, pred, depth, ignored)
            chain = children(start, typ, depth, ign + (ns, globals()))
            check(chain[-1] is start, 'children end with the object')
            verify(chain[::-1], start, referrers, pred, depth, ignored, best if best is not None else (len(chain) - 1 or None), 'children')


@case('ignore')
def ignore():
    a = Goal('a'); l = [a]; m = [l]
    check([x is y for x, y in zip(parents(m, Goal, 3), [m, l, a])] == [True] * 3, 'chain')
    eq(len(parents(m, Goal, 3, (l,))), 1, 'ignored on the way'); eq(len(parents(m, Goal, 3, (a,))), 1, 'ignored at the end')
    check(len(parents(m, Goal, 3, a)) == 1, 'a single object')
    check(len(parents(m, Goal, 3, (m,))) == 3, 'the object itself may be ignored')
    check(parent(l, Goal) is a and parent(l, Goal, (a,)) is None and parent(l, Goal, a) is None, 'parent')
    it = iter([4, 5, 6]); check(type(parent(it, list)) is list and parent(it, tuple) is None, 'iterator')
    # a detour around the ignored object
    b = Goal('b'); s = Node('s'); x, y, z = Node('x'), Node('y'), Node('z')
    s.kids = x; x.kids = b; s.name = y; y.kids = z; z.kids = b
    check(parents(s, Goal, 5) == [s, x, b] and parents(s, Goal, 5, (x,)) == [s, y, z, b] and parents(s, Goal, 2, (x,)) == [s], 'detour')
    hold = [b]; got = children(b, list, 1, (globals(),)); check(any(c is hold for c in got) or len(got) == 2, 'child')
    eq(len(children(b, Other, 1)), 1, 'none')
    b = Node('leaf'); goal = Goal('owner'); goal.kids = b; end = Node('end'); end.name = goal; own = [goal]
    def owners(ign): return children(b, Goal, 3, ign)
    for ign, want in [((), True), ([], True), ([goal], False), ((goal,), False), (goal, False), ((goal, own), False), ({1: goal}, True), (frozenset([1]), True)]:
        got = owners(ign); check(any(x is goal for x in got[:-1]) == want and got[-1] is b, 'ignoring %r: %r' % (type(ign), got))


@case('nothing of the search itself')
def own_objects():
    x = Node('x')
    for typ in (list, dict, tuple, set, types.FrameType, types.GeneratorType, types.FunctionType):
        chain = children(x, typ, 1)
        for y in chain[:-1]:
            check(isinstance(y, typ) and (y is sys._getframe() or not (isinstance(y, types.FrameType) and y.f_code.co_filename == P.__file__)), 'an object of the search: %r' % (y,))
            if isinstance(y, dict): check(y is x or y is globals() or y.get('x') is x, 'an object of the search')
            if isinstance(y, (list, tuple, set)): check(any(r is x for r in y), 'linked')
    y = chain = None
    hold = {'k': x}; got = children(x, dict, 1); check(len(got) == 2 and got[0] is hold, 'the dictionary that holds it')
    got = None; lst = [x]; got = children(x, list, 1, ()); check(len(got) == 2 and got[0] is lst, 'the list that holds it')


@case('depth')
def depth():
    a = Goal('a'); chain = [a]
    for i in range(30):
        n = Node(i); n.kids = chain[-1]; chain.append(n)
    for d in (-1, 0, 1, 2, 5, 10, 29, 30, 31, 50):
        for k in (0, 1, 2, 10, 29, 30):
            got = parents(chain[k], Goal, d)
            want = chain[k::-1] if k <= d or k == 0 else [chain[k]]
            check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), 'depth %d from %d' % (d, k))
    # the default depth is 1; cycles end
    check(parents(chain[2], Goal) == [chain[2]] and parents(chain[1], Goal) == [chain[1], a], 'default')
    x = []; x.append(x); check(parents(x, Goal, 100) == [x] if False else len(parents(x, Goal, 100)) == 1, 'a cycle')


@case('at')
def locating():
    class K: pass
    objs = [K(), [], {1: K()}, (K(), 1), K, lambda: 0, None, True, False, sys, set([1]), K().__init__]
    for o in objs: check(at(id(o)) is o, 'at %r' % (o,))
    for bad in ('x', None, 1.5, [], (1,), b'1', object()): raises(TypeError, at, bad)
    for gone in (0, 1, -5, 2 ** 70, 12345): raises(ReferenceError, at, gone)
    m = types.ModuleType('m'); m.k = K(); m.n = 'text of its own %d' % id(m)
    check(at(id(m.k), m) is m.k and at(id(m.n), m) is m.n, 'in a module')
    o = K(); raises(ReferenceError, at, id(o), m)
    raises(TypeError, at, 'x', m)
    check(at(id(None), m) is None, 'None')
    rng = random.Random(Counter.seed)
    for _ in range(20):
        l = [K() for _ in range(rng.randrange(1, 30))]; o = rng.choice(l); check(at(id(o)) is o, 'among many')


@case('a chain from None')
def from_none():
    l = [None]; got = children(None, list, 1, (globals(),))
    check(len(got) == 2 and got[-1] is None and isinstance(got[0], list), 'children of None: %d' % len(got))
    del got
    eq(children(None, Other, 1), [None], 'none')
    check(parents(None, list, 3) == [None] and parent(None, list) is None, 'parents of None')
