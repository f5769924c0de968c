from oracle import *
import dill, sys, types, random, builtins, dis, copy as cp
from dill import detect as DT
from dill.detect import code, freevars, globalvars, nestedcode, nestedglobals, varnames, referredglobals


def loads(co):
    """the names the code or code nested in it reads with a global lookup"""
    out = set()
    for i in dis.get_instructions(co):
        if i.opname in ('LOAD_GLOBAL', 'LOAD_NAME') or 'GLOBAL' in i.opname and i.opname.startswith('LOAD'): out.add(i.argval)
    for c in co.co_consts:
        if isinstance(c, types.CodeType): out |= loads(c)
    return out


def all_code(co):
    out = []
    for c in co.co_consts:
        if isinstance(c, types.CodeType): out += [c] + all_code(c)
    return out


class Program:
    """random module of functions, nested functions, classes and lambdas; records the names each function reads"""
    def __init__(self, rng, n):
        self.rng, self.uses, self.k = rng, {}, 0
        self.names = ['v%d' % i for i in range(6)] + ['größe', '_x', 'NULL', 'LOAD_CONST']
        lines = ['%s = %s' % (x, (None, 0, '()', i, 'len', 'False')[i % 6]) for i, x in enumerate(self.names[:rng.randrange(3, len(self.names))])]
        self.funcs = ['fn%d' % i for i in range(n)]
        for f in self.funcs:
            self.cur = self.uses.setdefault(f, set())
            lines += ['def %s(a=0, *args, b=1, **kw):' % f] + self.body(1, set()) + ['']
        self.text = '\n'.join(lines)
        self.ns = {'__name__': 'prog'}; exec(compile(self.text, '<prog>', 'exec'), self.ns)

    def name(self):
        n = self.rng.choice(self.names + self.funcs); self.cur.add(n); return n

    def expr(self, d):
        r = self.rng.randrange(9)
        if r == 0: return 'len([%s for q in (1, 2)])' % self.name()
        if r == 1: return '(lambda z: %s)' % self.expr(d + 1) if d < 3 else self.name()
        if r == 2: return "'(%s) LOAD_GLOBAL (zzz)'" % self.rng.choice(self.names)
        if r == 3: return 'a.v5 if a else b'
        if r == 4: return '{k: %s for k in %s}' % (self.name(), self.name())
        if r == 5: return '[w for w in (lambda: %s)()]' % self.name()
        return self.name()

    def body(self, d, locs):
        p = '    ' * d; out = []
        for _ in range(self.rng.randrange(1, 4)):
            r = self.rng.randrange(7); self.k += 1
            if r == 0 and d < 4: out += [p + 'def inner%d():' % self.k] + self.body(d + 1, locs)
            elif r == 1 and d < 4: out += [p + 'class C%d:' % self.k, p + '    attr = ' + self.expr(d)] + self.body(d + 1, locs)
            elif r == 2: out += [p + 'try: pass', p + 'except %s: t%d = %s' % (self.name(), self.k, self.expr(d))]
            elif r == 3: out += [p + 't%d = f"{%s!r:>{%s}}"' % (self.k, self.name(), self.name())]
            else: out += [p + 't%d = %s' % (self.k, self.expr(d))]
        return out


def unchanged(f):
    g = f.__globals__
    before = (dict(g), list(g), f.__code__, f.__defaults__, f.__closure__ and [c.cell_contents if has(c) else None for c in f.__closure__], dict(f.__dict__), sys.stdout)
    def after():
        now = (dict(g), list(g), f.__code__, f.__defaults__, f.__closure__ and [c.cell_contents if has(c) else None for c in f.__closure__], dict(f.__dict__), sys.stdout)
        check(all(x is y or x == y for x, y in zip(before, now)) and now[-1] is before[-1], 'the function or its globals changed')
    return after


def has(c):
    try: c.cell_contents; return True
    except ValueError: return False


@case('random programs', timeout=120)
def programs():
    rng = random.Random(Counter.seed)
    for _ in range(40 if Counter.tier == 'quick' else 400):
        p = Program(rng, rng.randrange(1, 6))
        for name in p.funcs:
            f = p.ns[name]; g = f.__globals__; done = unchanged(f)
            r = cp.copy(globalvars(f)); mine = loads(f.__code__)
            check(mine <= p.uses[name] | set(dir(builtins)) | {'__name__'}, 'the reference finds another name')
            # reachable functions of the program
            reach, todo = {name}, [name]
            while todo:
                for x in loads(p.ns[todo.pop()].__code__) & set(p.funcs):
                    if x not in reach: reach.add(x); todo.append(x)
            need = set().union(*(loads(p.ns[x].__code__) for x in reach))
            for n, v in r.items(): check(n in g and g[n] is v, 'a value that is not the current one: %s' % n)
            check(need & set(g) <= set(r), 'missing: %r in\n%s' % (sorted(need & set(g) - set(r)), p.text))
            check(set(r) <= need, 'not referred to: %r' % sorted(set(r) - need))
            b = globalvars(f, builtin=True); check(set(b) == set(r) | {n for n in need - set(g) if hasattr(builtins, n)} , 'with builtins')
            for n, v in b.items(): check(v is g[n] if n in g else v is getattr(builtins, n), 'a value with builtins')
            n0 = globalvars(f, recurse=False); check(loads_own(f.__code__) & set(g) <= set(n0) and all(g[n] is v for n, v in n0.items()), 'without recursing')
            check(loads(f.__code__) <= set(nestedglobals(f)), 'nestedglobals')
            check(set(referredglobals(f)) == set(r), 'referredglobals')
            got = nestedcode(f); want = all_code(f.__code__)
            check(len(got) == len(set(want)) and all(any(x is y for y in want) for x in got), 'nested code')
            got = nestedcode(f, recurse=False); want = {c for c in f.__code__.co_consts if isinstance(c, types.CodeType)}
            check(len(got) == len(want) and set(got) == want, 'code directly nested')
            eq(varnames(f), (f.__code__.co_varnames, f.__code__.co_cellvars), 'varnames'); eq(varnames(f.__code__), varnames(f), 'varnames of code')
            done()


def loads_own(co): return {i.argval for i in dis.get_instructions(co) if i.opname in ('LOAD_GLOBAL', 'LOAD_NAME')}


@case('code')
def codes():
    def f(): return sys._getframe()
    class K:
        def m(self): pass
        @classmethod
        def c(cls): pass
        @staticmethod
        def s(): pass
        def __call__(self): raise AssertionError('called')
    check(code(f) is f.__code__ and code(f.__code__) is f.__code__, 'function, code')
    check(code(K().m) is K.m.__code__ and code(K.c) is K.c.__func__.__code__ and code(K.s) is K.s.__code__ and code(K.m) is K.m.__code__, 'methods')
    check(code(f()) is f.__code__, 'frame')
    def deep(n): return 1 / n if n == 0 else deep(n - 1)
    try: deep(3)
    except ZeroDivisionError as e: tb = e.__traceback__
    check(code(tb) is codes.__code__ and code(tb.tb_next) is deep.__code__ and code(tb.tb_next.tb_next.tb_next.tb_next) is deep.__code__, 'traceback')
    check(code(lambda: 0).co_name == '<lambda>', 'lambda')
    def gen(): yield
    for x in (None, 1, 'f', len, [].append, K, K(), sys, (x for x in ()), gen(), property(f), classmethod(f), staticmethod(f), types.MethodType(len, []), object(), {}, (f,)):
        check(code(x) is None, 'code of %r' % (x,)); eq(nestedcode(x), [], 'nestedcode'); eq(nestedglobals(x), [], 'nestedglobals'); eq(varnames(x), (), 'varnames'); eq(freevars(x), {}, 'freevars')
        check(globalvars(x) in ({},), 'globalvars')


@case('closure variables')
def closures():
    def mk(a, b):
        if b: c = a * 2
        def f(): return a, b, c, x
        x = [a]
        return f
    f = mk(1, True); done = unchanged(f)
    eq(freevars(f), {'a': 1, 'b': True, 'c': 2, 'x': [1]}, 'all'); done()
    f = mk(3, 0); eq(freevars(f), {'a': 3, 'b': 0, 'x': [3]}, 'an empty cell')
    check(freevars(f)['x'] is f.__closure__[f.__code__.co_freevars.index('x')].cell_contents, 'the value itself')
    class K:
        def m(self): return __class__, f
    v = freevars(K().m); check(v == {'__class__': K, 'f': f} and freevars(K.m) == v, 'a method')
    eq(freevars(lambda: 0), {}, 'none')
    def empty():
        def g(): return late
        r = freevars(g); late = None
        return r, freevars(g)
    eq(empty(), ({}, {'late': None}), 'empty, then None')
    def rec(a, b):
        def z(n): return a, b, z
        def aa(): return a, aa, z
        return z, aa
    z, aa = rec(1, None); eq(freevars(z), {'a': 1, 'b': None, 'z': z}, 'a recursive function'); eq(freevars(aa), {'a': 1, 'aa': aa, 'z': z}, 'another')
    # cells that hold functions, after and before empty ones; what they refer to counts
    ns = {'x': None, 'y': 0, 'z': (), 'w': False}
    exec('''def mk(flag):
    if flag & 1: a = 1
    def b(): return x
    if flag & 2: c = lambda: y
    class D:
        def m(self): return w
    d = D().m
    def f(): return a, b, c, d, z
    return f
''', ns)
    for flag in range(4):
        f = ns['mk'](flag); want = {'x': None, 'z': (), 'w': False}
        if flag & 2: want['y'] = 0
        eq(globalvars(f), want, 'through the closure'); eq(globalvars(f, recurse=False), want, 'through the closure, not recursing')
        eq(set(freevars(f)), {'b', 'd'} | ({'a'} if flag & 1 else set()) | ({'c'} if flag & 2 else set()), 'cells')
    def counter():
        n = 0
        def g():
            nonlocal n; n += 1; return n
        return g
    g = counter(); g(); g(); eq(freevars(g), {'n': 2}, 'the current value')
    class Odd:
        def __eq__(self, o): raise ValueError
        def __bool__(self): raise ValueError
        def __hash__(self): raise ValueError
    o = Odd(); h = lambda: o
    check(freevars(h)['o'] is o, 'odd value'); check(globalvars(h) == {}, 'odd value')


@case('mutual recursion', timeout=30)
def mutual():
    ns = {'v': 1, 'w': 2}
    exec('def f(): return g, v\ndef g(): return f, w\ndef h(): return h, f\n', ns)
    check(set(globalvars(ns['f'])) == {'f', 'g', 'v', 'w'} == set(globalvars(ns['g'])) and set(globalvars(ns['h'])) == {'f', 'g', 'h', 'v', 'w'}, 'mutual recursion')
    # many functions that refer to each other
    n = 14; ns = {'x%d' % i: i for i in range(n)}
    for i in range(n): exec('def g%d(): x%d; %s' % (i, i, '; '.join('g%d' % j for j in range(n))), ns)
    check(set(globalvars(ns['g3'])) == set(ns) - {'__builtins__'}, 'a dense one')
    # a code object among the builtins that refers to itself
    builtins.c_of_c20 = compile('c_of_c20', '', 'eval')
    try: check(set(globalvars(builtins.c_of_c20, builtin=True)) == {'c_of_c20'}, 'code that refers to itself')
    finally: del builtins.c_of_c20
    # through closures
    exec('def mk():\n def a(): return b, p\n def b(): return a, q\n return a\np = q = 0\n', ns)
    a = ns['mk'](); check(set(globalvars(a)) == {'p', 'q'}, 'closures that refer to each other')
    # two modules whose functions refer to each other
    m1, m2 = {'s': 1, 't': 1}, {'t': 2, 'u': 2}
    exec('def f(): return g, s\ndef k(): return t', m1); exec('def g(): return f, u, t', m2); m1['g'], m2['f'] = m2['g'], m1['f']
    r = globalvars(m1['f']); check(r == {'g': m1['g'], 's': 1, 'f': m1['f'], 't': 1} or r == {'g': m1['g'], 's': 1} or r == {'g': m1['g'], 's': 1, 't': 1}, 'two modules: %r' % sorted(r))


@case('class bodies')
def class_bodies():
    ns = {'base': object, 'deco': lambda c: c, 'val': 3, 'ann': int, 'other': 4, 'dflt': 5}
    exec('''
def f():
    @deco
    class K(base):
        x = val
        class L: y = other
        def m(self, q=dflt): return __unknown
    return K
def g():
    class K: __private = val
    return K
def h():
    class G[T]:
        y: T = other
        def m[S](self, q: S) -> ann: return val
    return G
''', ns)
    eq(set(globalvars(ns['f'])), {'deco', 'base', 'val', 'other', 'dflt'}, 'f'); check({'val'} <= set(globalvars(ns['g'])), 'g'); check({'other', 'val', 'ann'} <= set(globalvars(ns['h'])), 'h')


@case('streams')
def streams():
    out = sys.stdout
    class Broken:
        def write(self, s): raise OSError('no')
        def flush(self): raise OSError('no')
    b = Broken()
    try:
        sys.stdout = b; r = globalvars(streams); check(sys.stdout is b and 'sys' in r, 'a broken stdout')
        sys.stdout = None; r = globalvars(streams); check(sys.stdout is None and 'sys' in r, 'no stdout')
    finally: sys.stdout = out
    ran = []
    def f(): ran.append(1)
    done = unchanged(f)
    for g in (code, freevars, globalvars, nestedcode, nestedglobals, varnames): g(f)
    check(not ran, 'the function ran'); done()
    # sub-functions with other globals: names of theirs are not the function's
    other = {'__builtins__': builtins, 'mine': 1, 'yours': 2}; exec('def h(): return mine, yours', other)
    ns = {'h': other['h'], 'yours': 5}; exec('def f(): return h()', ns)
    r = globalvars(ns['f']); check(r.get('yours', 5) == 5 and 'mine' not in r and r['h'] is other['h'], 'a function of another module')
