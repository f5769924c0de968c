from oracle import *
import dill, logging, random, types, os, abc, enum, functools, collections, collections.abc, weakref, threading, contextvars, operator, typing, dataclasses, socket, gzip, pickle
import dill._dill as D
import dill.logger as L
from dill import detect

OPEN, CLOSE = 'open', 'close'


class Collect(logging.Handler):
    """what the trace reports, with the position of the stream at that moment"""
    def __init__(self, where=lambda: None):
        super().__init__(); self.records = []; self.where = where
    def emit(self, r): self.records.append((r.msg, getattr(r, 'depth', None), getattr(r, 'size', None), self.where()))


def human(n):
    if n < 1: return None
    p = 0
    while n >= 1024 and p < 5: n >>= 10; p += 1
    return '[%d %sB]' % (n, ('KMGTP'[p - 1] + 'i') if p else '')


def balanced(records, sizes=True, what=''):
    stack = []
    for msg, depth, size, pos in records:
        if depth is None: continue
        if not msg.startswith('#'):
            check(depth == len(stack) + 1, '%s: %r opened at depth %r, %d are open' % (what, msg, depth, len(stack)))
            stack.append((msg, depth, pos))
        else:
            check(stack, '%s: %r closes nothing' % (what, msg))
            m, d, p = stack.pop()
            check(d == depth, '%s: %r at depth %r closes %r at depth %r' % (what, msg, depth, m, d))
            if sizes: check(size == pos - p, '%s: %r reports %r bytes, %r were written' % (what, msg, size, pos - p))
    check(not stack, '%s: left open: %r' % (what, stack))


def lines(text, records, what=''):
    """the printed tree agrees with the records"""
    ls = text.splitlines()
    heads = [l for l in ls if l[:1] in '┬├│└']
    n = 0
    for msg, depth, size, pos in records:
        if depth is None: continue
        if msg.startswith('#'):
            want = (depth - 1) * '│' + '└ ' + msg + ((' ' + human(size)) if size is not None and human(size) else '')
            check(want in ls, '%s: no line %r' % (what, want)); n += 1
        else:
            pre = '┬ ' if depth == 1 else (depth - 2) * '│' + '├┬ '
            check(any(l.startswith(pre + msg.split('%')[0]) for l in ls), '%s: no line %r' % (what, pre + msg)); n += 1
    return n


def position(p):
    f = p.framer.current_frame
    try: return p._file.tell() + (f.tell() if f is not None else 0)
    except Exception: return None


def plain(obj, f=None, **kw):
    f = io.BytesIO() if f is None else f
    D.Pickler(f, **kw).dump(obj)
    return f


def traced(obj, f=None, to=None, **kw):
    f = io.BytesIO() if f is None else f
    to = io.StringIO() if to is None else to
    p = D.Pickler(f, **kw); h = Collect(lambda: position(p))
    L.logger.addHandler(h)
    try:
        with detect.trace(to): p.dump(obj)
    finally: L.logger.removeHandler(h)
    return f, h.records, to.getvalue()


def compare(obj, what, **kw):
    try: a = plain(obj, **kw).getvalue()
    except Exception as e:
        h = None
        raises(type(e), traced, obj, **kw); return
    b, rec, text = traced(obj, **kw)
    if plain(obj, **kw).getvalue() == a: check(b.getvalue() == a, what + ': the pickle is another one')
    balanced(rec, what=what); lines(text, rec, what)
    return rec


# ---------------------------------------------------------------- objects of every kind
def pool():
    G = dict(globals())
    x = 5; lst = []
    def clo(y): lst.append(y); return x + y
    def rec(n): return n and rec(n - 1)
    def empty():
        if False: z = 1
        return lambda: z
    class Local:
        __slots__ = ('a', '__dict__', '__weakref__')
        attr = 3
        def meth(self, y=1): return self, super().__init__
        @classmethod
        def cm(cls): return cls
        @staticmethod
        def sm(): return 1
        @property
        def pr(self): return 1
    class Sub(Local): pass
    class Abs(abc.ABC):
        @abc.abstractmethod
        def f(self): pass
    class Reg: pass
    Abs.register(Reg)
    @dataclasses.dataclass
    class DC:
        a: int = 0; b: list = dataclasses.field(default_factory=list)
    class E(enum.Enum): A = 1; B = 2
    NT = collections.namedtuple('NT', 'a b')
    class Meta(type): pass
    class WithMeta(metaclass=Meta): pass
    mod = types.ModuleType('some_runtime_module'); mod.v = [1]
    fn = types.FunctionType(clo.__code__, {'__builtins__': __builtins__, 'k': 1}, 'clo', None, clo.__closure__)
    keep = Local()
    cache = functools.lru_cache(maxsize=3)(lambda q: q)
    ctx = contextvars.Context() if hasattr(contextvars, 'Context') else None
    d = {'a': 1, 'b': [2]}
    tmp = open('some file', 'w+'); tmp.write('text')
    tb = open('some file 2', 'wb')
    lock = threading.Lock(); rl = threading.RLock(); rl2 = threading.RLock(); rl2.acquire()
    cell = types.CellType([1]); ecell = types.CellType()
    selfcell = types.CellType(); selfcell.cell_contents = selfcell
    bd = {}; bd['me'] = bd
    m = {'code': clo.__code__, 'lambda': lambda: 0, 'closure': clo, 'recursive': rec, 'unbound cell': empty, 'unbound cell 2': empty(), 'globals of its own': fn,
         'class': Local, 'subclass': Sub, 'instance': keep, 'abstract': Abs, 'dataclass': DC, 'dataclass instance': DC(), 'enum': E, 'enum member': E.A, 'namedtuple': NT, 'namedtuple instance': NT(1, 2),
         'metaclass': WithMeta, 'module': os, 'submodule': os.path, 'runtime module': mod, 'a module with itself': (mod, [mod]), 'dill': dill, 'main': __import__('__main__'),
         'dict': d, 'nested': {'a': {'b': {'c': {}}}}, 'recursive dict': bd, 'keys': d.keys(), 'values': d.values(), 'items': d.items(),
         'okeys': collections.OrderedDict(d).keys(), 'ovalues': collections.OrderedDict(d).values(), 'oitems': collections.OrderedDict(d).items(), 'viewkeys': collections.UserDict(d).keys(),
         'mapping proxy': types.MappingProxyType(d), 'lock': lock, 'rlock': rl, 'held': rl2, 'file': tmp, 'binary': tb, 'StringIO': io.StringIO('a'), 'BytesIO': io.BytesIO(b'a'),
         'cache': cache, 'super': super(Sub, Sub()), 'method': keep.meth, 'class method': Local.cm, 'method of None class': Local.__dict__['cm'], 'static': Local.__dict__['sm'], 'property': Local.__dict__['pr'],
         'builtin method': [].append, 'builtin method of a class': dict.fromkeys, 'builtin': len, 'wrapper': str.__add__, 'method wrapper': 'a'.__add__, 'descriptor': str.join, 'getset': type.__dict__['__dict__'], 'member': Local.__dict__['a'],
         'slot wrapper': int.__dict__['__add__'], 'classmethod descriptor': dict.__dict__['fromkeys'], 'cell': cell, 'empty cell': ecell, 'own cell': selfcell, 'slice': slice(1, 2, None), 'range': range(3), 'ellipsis': ..., 'NotImplemented': NotImplemented,
         'none': None, 'none type': type(None), 'type': type, 'types': [int, type(...), type(NotImplemented), types.FunctionType, types.CodeType, type(lambda: 0), types.GeneratorType, types.SimpleNamespace],
         'ref': weakref.ref(keep), 'proxy': weakref.proxy(keep), 'weak dict': weakref.WeakValueDictionary(k=keep), 'dead': weakref.ref(Local()),
         'getter': operator.itemgetter(1, 2), 'attr': operator.attrgetter('a.b'), 'partial': functools.partial(clo, 1), 'context': ctx, 'alias': typing.List[int], 'alias 2': list[int], 'alias 3': typing.Dict[str, Local], 'empty tuple type': typing.Tuple[()], 'union': typing.Union[int, str], 'generic': typing.List,
         'thread': threading.Thread, 'exception': ValueError('x'), 'big': {i: 'x' * 3000 for i in range(60)}, 'globals': G['__builtins__'] if 'none' in G else G['human'], 'logger': L.logger, 'tuple': (clo, clo, (clo, [d, d])),
         'set': {1, 2, frozenset([3])}, 'deque': collections.deque([clo]), 'default': collections.defaultdict(list, a=[1]), 'counter': collections.Counter('aab'), 'socket': socket.socket(), 'capsule': getattr(D, '_testcapsule', None),
         'dict of globals': globals(), 'KWO': dataclasses.KW_ONLY, 'MISSING': dataclasses.MISSING, 'fb': getattr(dataclasses, '_HAS_DEFAULT_FACTORY', 0), 'fields': dataclasses.fields(DC), 'base': dataclasses._FIELD}
    try:
        import numpy as np
        class Arr(np.ndarray): pass
        m.update({'array': np.arange(5), 'ufunc': np.add, 'dtype': np.dtype('f8'), 'array subclass': np.arange(3).view(Arr), 'object array': np.array([clo, d], dtype=object), 'numpy': np, 'numpy scalar': np.float64(1)})
    except ImportError: pass
    m['keep'] = keep
    return m


@case('objects of every kind', timeout=240)
def _():
    seen = set()
    for name, o in pool().items():
        for kw in ({}, {'recurse': True}, {'byref': True}, {'protocol': 2}, {'protocol': 0}):
            rec = compare(o, '%s %r' % (name, kw), **kw)
            for r in rec or (): seen.add(r[0].split(':')[0].split(' with')[0] if not r[0].startswith('#') else r[0])
    check(len([s for s in seen if not s.startswith('#')]) >= 30, 'kinds of objects traced: %r' % sorted(seen))


@case('the registered objects', timeout=200)
def _():
    import warnings; warnings.simplefilter('ignore')
    dill.load_types(pickleable=True, unpickleable=False)
    from dill import _objects
    for name, o in list(_objects.registered.items()) if hasattr(_objects, 'registered') else []:
        if 'Logger' in name or 'Handler' in name: continue   # changed by the trace itself
        compare(o, name)
        compare([o, {name: o}], name + ' in a list', recurse=True)


@case('random structures', timeout=100)
def _():
    rng = random.Random(Counter.seed)
    leaves = [v for k, v in pool().items() if k in ('lambda', 'closure', 'class', 'instance', 'dict', 'keys', 'method', 'cell', 'slice', 'ref', 'super', 'property', 'namedtuple', 'enum member', 'recursive dict', 'getter', 'lock')]
    for n in range(40 if Counter.tier == 'quick' else 300):
        nodes = list(leaves)
        for _ in range(8):
            k = rng.choice([list, dict, tuple])
            c = [rng.choice(nodes) for _ in range(rng.randrange(4))]
            nodes.append(dict(enumerate(c)) if k is dict else k(c))
        compare(nodes[-1], 'structure %d' % n, recurse=bool(n & 1), protocol=rng.randrange(dill.HIGHEST_PROTOCOL + 1))
        compare(nodes, 'structure %d' % n, recurse=bool(n & 1))


# ---------------------------------------------------------------- streams
class Stream:
    def __init__(self): self.data = []
    def write(self, b): self.data.append(bytes(b)); return len(b)
    def getvalue(self): return b''.join(self.data)
OBJ = lambda: {'f': lambda x: x, 'd': {'e': {}}, 'c': type('C', (), {'m': lambda s: s})}


def stream_case(make, what, sizes=False):
    o = OBJ()
    want = plain(o).getvalue()
    for protocol in (0, 2, dill.HIGHEST_PROTOCOL):
        a = make(); D.Pickler(a, protocol=protocol).dump(o)
        b, rec, text = traced(o, make(), protocol=protocol)
        eq(b.getvalue(), a.getvalue(), what); balanced(rec, sizes, what)
        check(any(r[1] for r in rec), what + ': nothing is traced')
        for r in rec: check(r[2] is None or type(r[2]) is int and r[2] >= 0 or not sizes, '%s: size %r' % (what, r[2]))


@case('non-tellable stream')
def _():
    stream_case(Stream, 'no tell')
    with detect.trace(io.StringIO()) as log:
        f = Stream(); dill.dump({'a': {}}, f); eq(dill.loads(f.getvalue()), {'a': {}})
    r, w = os.pipe()
    with os.fdopen(w, 'wb', buffering=0) as f:
        with detect.trace(io.StringIO()): dill.dump({'a': {}}, f)
    eq(dill.loads(os.read(r, 10000)), {'a': {}}); os.close(r)
    a, b = socket.socketpair(); f = a.makefile('wb')
    with detect.trace(io.StringIO()): dill.dump({'a': {}}, f); f.flush()
    eq(dill.loads(b.recv(10000)), {'a': {}})


@case('odd tell')
def _():
    for exc in (AttributeError, TypeError, OSError, NotImplementedError, RuntimeError, ValueError, KeyError, IndexError, ZeroDivisionError, UnicodeError, AssertionError, EOFError, StopIteration, MemoryError, io.UnsupportedOperation):
        class F(Stream):
            def tell(self): raise exc('no')
        stream_case(F, 'tell raises ' + exc.__name__)
        class G(Stream):
            tell = property(lambda s: (_ for _ in ()).throw(exc('no')))
        stream_case(G, 'no tell: ' + exc.__name__)
    for v in (None, 'abc', 3.5, b'x', -7, True, [], (), 10 ** 30, object(), float('nan'), 1j):
        class F(Stream):
            def tell(self): return v
        stream_case(F, 'tell returns %r' % (v,))


@case('tell that works now and then')
def _():
    rng = random.Random(Counter.seed)
    for n in range(60):
        bits = [rng.random() < .5 for _ in range(400)]
        bad = rng.choice([None, OSError, 'x', ValueError])
        class F(Stream):
            i = 0
            def tell(self):
                self.i += 1
                if bits[self.i % 400]: return len(self.getvalue())
                if isinstance(bad, type): raise bad('now and then')
                return bad
        stream_case(F, 'sometimes %d' % n)
    # a size that is reported is the number of bytes written
    for n in range(60):
        class F(Stream):
            i = 0
            def tell(self):
                self.i += 1
                if self.i % (n + 2) == 1: raise OSError('now and then')
                return len(self.getvalue())
        p = D.Pickler(F(), protocol=rng.choice([2, 4])); real = lambda: len(p._file.getvalue()) + (p.framer.current_frame.tell() if p.framer.current_frame else 0)
        h = Collect(real); L.logger.addHandler(h)
        with detect.trace(io.StringIO()): p.dump(OBJ())
        L.logger.removeHandler(h)
        st = []
        for msg, depth, size, pos in h.records:
            if not msg.startswith('#'): st.append(pos)
            else:
                q = st.pop()
                if size is not None: eq(size, pos - q, 'size of ' + msg)


@case('tellable streams')
def _():
    o = OBJ()
    class T(Stream):
        def tell(self): return len(self.getvalue())
    stream_case(T, 'tell', True)
    class Shifted(T):
        def tell(self): return 1000 + len(self.getvalue())
    stream_case(Shifted, 'tell from elsewhere', True)
    for opener, rd in ((lambda: open('f.pkl', 'wb'), lambda: open('f.pkl', 'rb').read()), (lambda: open('f.pkl', 'wb', buffering=0), lambda: open('f.pkl', 'rb').read()), (lambda: gzip.open('f.gz', 'wb'), lambda: gzip.open('f.gz').read())):
        with opener() as f: plain(o, f)
        want = rd()
        with opener() as f: _, rec, text = traced(o, f)
        eq(rd(), want, 'file'); balanced(rec, True, 'file'); lines(text, rec, 'file')
    # appended: sizes count from the position of the object
    f = io.BytesIO(); f.write(b'x' * 5000); _, rec, _ = traced(o, f); balanced(rec, True, 'appended')


# ---------------------------------------------------------------- objects that cannot be shown
@case('object that cannot be shown')
def _():
    class Deep:
        def __repr__(self): return repr(self)
        def f(self): pass
    class Bad:
        def __repr__(self): raise exc('no')
        def f(self): pass
    deep = []
    for _ in range(100000): deep = [deep]
    for exc in (ValueError, TypeError, KeyError, RecursionError, RuntimeError, MemoryError, OSError, AttributeError):
        for C in (Deep, Bad):
            c = C()
            for o in (c.f, {1: c}.values(), {1: c}.items(), {'k': [c.f]}, c, C, weakref.proxy(c), typing.List[C], super(C, c), types.CellType(c)):
                want = plain([o, c]).getvalue()
                f, rec, text = traced([o, c])
                eq(f.getvalue(), want, 'not shown'); balanced(rec, True)
            dill.detect.trace(True)
            try: dill.dumps(c.f)
            finally: dill.detect.trace(False)
    class MC(type):
        def __repr__(cls): return repr(cls)
    class WithMC(metaclass=MC): pass
    want = plain(WithMC).getvalue(); f, rec, _ = traced(WithMC); eq(f.getvalue(), want); balanced(rec)


@case('formats in names')
def _():
    class C: pass
    for name in ('%s', '%d %d', '100%', '%(a)s', '{}', '# F1', '#', '', '\n', 'é', '┬'):
        C.__name__ = C.__qualname__ = name
        def f(): pass
        f.__name__ = f.__qualname__ = name
        keep = C()
        for o in (C, keep, f, {name: f}, {name: C}.values(), {name: {}}.keys(), weakref.proxy(keep), types.ModuleType(name or 'm')): 
            try: want = plain(o).getvalue()
            except Exception as e: raises(type(e), traced, o); continue
            g, rec, text = traced(o); eq(g.getvalue(), want, name); balanced(rec, True, name)


# ---------------------------------------------------------------- one pickler after another
@case('dumps after failures')
def _():
    class Unpicklable:
        def __reduce__(self): raise ValueError('no')
    o = OBJ()
    bad = {'a': {'b': [lambda: 0, {'c': Unpicklable()}]}}
    f = io.BytesIO(); p = D.Pickler(f); h = Collect(lambda: position(p)); L.logger.addHandler(h)
    with detect.trace(io.StringIO()):
        for _ in range(3):
            h.records.clear(); raises(ValueError, p.dump, bad)
            check(h.records, 'traced')
            h.records.clear(); p.clear_memo(); p.dump(o); balanced(h.records, True, 'after a failure')
            h.records.clear(); raises(ValueError, dill.dumps, bad)
            h.records.clear(); h.where = lambda: 0
            dill.dumps(o); balanced(h.records, False, 'another pickler'); h.where = lambda: position(p)
            eq([r for r in h.records if r[2] is None and r[0].startswith('#')], [], 'sizes')
    # tracing off, the same pickler
    h.records.clear(); p.clear_memo(); p.dump(o); eq(h.records, [], 'tracing is off')
    detect.trace(True); p.clear_memo()
    try: p.dump(o)
    finally: detect.trace(False)
    balanced(h.records, True, 'on again')
    L.logger.removeHandler(h)


@case('a dump within a dump')
def _():
    h = Collect(); L.logger.addHandler(h)
    class Nest:
        def __reduce__(self):
            mine = h.records; h.records = []
            dill.dumps({'x': {'y': lambda: 0}}); balanced(h.records, False, 'inner'); check(h.records or L.logger.level > 20, 'inner traced')
            h.records = mine
            return (dict, ({'z': {}},))
    with detect.trace(io.StringIO()):
        a = dill.dumps([{'n': Nest(), 'd': {}}, lambda: 0, Nest()])
    balanced(h.records, False, 'outer'); L.logger.removeHandler(h)
    eq(dill.dumps([{'n': Nest(), 'd': {}}, 5, Nest()]) is not None, True)


@case('other picklers')
def _():
    """a subclass of the Pickler, and the stock pickler with dill's functions"""
    class Sub(dill.Pickler): pass
    Sub2 = type('Pickler', (dill.Pickler,), {'__module__': 'elsewhere'})
    for cls in (Sub, Sub2, pickle._Pickler):
        for o in (OBJ() if cls is not pickle._Pickler else {'a': {'b': 1}}, {'a': 1}.values() if cls is not pickle._Pickler else [1]):
            f = io.BytesIO(); cls(f).dump(o)
            g = io.BytesIO()
            with detect.trace(io.StringIO()): cls(g).dump(o)
            eq(g.getvalue(), f.getvalue(), cls.__name__)
            g = Stream()
            with detect.trace(io.StringIO()): cls(g).dump(o)
            eq(g.getvalue(), f.getvalue(), cls.__name__)


@case('a trace that cannot be written')
def _():
    import sys
    o = OBJ(); want = plain(o).getvalue(); before = state()
    for exc in (ValueError, OSError, TypeError, UnicodeEncodeError, RuntimeError, RecursionError):
        class W:
            encoding = 'utf-8'
            def write(self, s):
                if exc is UnicodeEncodeError: s.encode('ascii')
                raise exc('no')
        f = io.BytesIO()
        with detect.trace(W()): plain(o, f)
        eq(f.getvalue(), want, 'not written'); same_state(before, 'not written')
    f = io.BytesIO(); closed = io.StringIO(); closed.close()
    with detect.trace(closed): plain(o, f)
    eq(f.getvalue(), want, 'closed')
    f = io.BytesIO()
    with detect.trace(io.BytesIO()): plain(o, f)
    eq(f.getvalue(), want, 'binary')


# ---------------------------------------------------------------- the context
def state(): return L.logger.level, list(L.logger.handlers), L.logger.propagate, L.logger.disabled, list(L.logger.filters)
def same_state(a, what):
    b = state()
    check(a[0] == b[0], '%s: level %r, was %r' % (what, b[0], a[0]))
    check(len(a[1]) == len(b[1]) and {id(h) for h in a[1]} == {id(h) for h in b[1]}, '%s: handlers %r, were %r' % (what, b[1], a[1]))
    check(a[2:] == b[2:], what)


class Boom(Exception): pass
def use(exc, *a, **k):
    log = None
    try:
        with detect.trace(*a, **k) as log:
            check(L.logger.isEnabledFor(logging.INFO), 'tracing is on')
            log('message %d', 1); dill.dumps({'a': {}})
            if exc is not None: raise exc('out')
    except BaseException as e:
        if exc is None or not isinstance(e, exc): raise
    else: check(exc is None, 'the exception is not swallowed')


LEVELS = (logging.NOTSET, 1, logging.DEBUG, logging.INFO, 25, logging.WARNING, logging.ERROR, logging.CRITICAL, 99)


@case('leaving the context', timeout=100)
def _():
    other, third = logging.NullHandler(), Collect()
    for level in LEVELS:
        for hs in ((L.stderr_handler,), (), (other,), (L.stderr_handler, other), (other, L.stderr_handler), (third, L.stderr_handler, other)):
            for exc in (None, Boom, KeyboardInterrupt, SystemExit, GeneratorExit, ValueError):
                L.logger.setLevel(level)
                for h in list(L.logger.handlers): L.logger.removeHandler(h)
                for h in hs: L.logger.addHandler(h)
                before = state()
                use(exc); same_state(before, 'trace()')
                s = io.StringIO(); use(exc, s); same_state(before, 'trace(stream)')
                check(not s.closed and 'message 1' in s.getvalue() and '┬' in s.getvalue(), 'the stream was written and stays open')
                s.write('still usable')
                use(exc, 'trace.txt'); same_state(before, 'trace(name)')
                use(exc, 'trace2.txt', mode='w'); same_state(before, 'trace(name, mode)')
                import pathlib; use(exc, pathlib.Path('trace3.txt'), mode='w'); same_state(before, 'trace(path)')
                n = open('trace.txt', encoding='utf8').read().count('message 1'); m = open('trace2.txt', encoding='utf8').read().count('message 1')
                check(n >= 1 and m == 1, 'modes')
    check(n == len(LEVELS) * 36, 'appended: %d' % n)


@case('inherited level')
def _():
    root = logging.getLogger()
    for rl in LEVELS[1:]:
        root.setLevel(rl)
        for level in LEVELS:
            L.logger.setLevel(level)
            for a in ((), (io.StringIO(),), ('t.txt',)):
                use(None, *a); eq(L.logger.level, level, 'level'); use(Boom, *a); eq(L.logger.level, level, 'level')


@case('files of the context')
def _():
    opened = []
    real = open
    before = state()
    for exc in (None, Boom):
        with real('mine.txt', 'w', encoding='utf8') as mine:
            try:
                with detect.trace('named.txt', mode='w') as log:
                    opened = [h for h in L.logger.handlers if isinstance(h, logging.FileHandler)]
                    eq(len(opened), 1, 'one handler for the file'); stream = opened[0].stream
                    with detect.trace(mine):
                        log('to both'); dill.dumps({})
                    check(not mine.closed and not stream.closed, 'still open')
                    log('to one')
                    if exc: raise exc('x')
            except Boom: pass
            check(stream.closed, 'the file opened is closed'); check(not mine.closed, 'the file given is not closed'); mine.write('end\n')
        eq(real('mine.txt', encoding='utf8').read().count('to'), 1); check(real('mine.txt', encoding='utf8').read().endswith('end\n'))
        eq(real('named.txt', encoding='utf8').read().count('to'), 2)
        same_state(before, 'files')
    import pathlib
    class Path:
        def __fspath__(self): return 'other.txt'
    for f in ('named.txt', pathlib.Path('path.txt'), pathlib.PurePath('pure.txt'), Path()):
        for exc in (None, Boom, KeyboardInterrupt):
            try:
                with detect.trace(f, mode='w'):
                    stream = [h for h in L.logger.handlers if isinstance(h, logging.FileHandler)][0].stream
                    if exc: raise exc('x')
            except (Boom, KeyboardInterrupt): pass
            check(stream.closed, 'the file opened for %r is closed' % (f,)); same_state(before, 'files')
    # a file that cannot be opened
    for bad in ('no/such/dir/file', '.', ''):
        raises(OSError, use, None, bad) if bad != '' else None
        same_state(before, 'cannot be opened')
    raises(ValueError, use, None, 'named.txt', mode='nonsense'); same_state(before, 'bad mode')
    class Weird:
        """text stream without encoding, flush or close"""
        def __init__(self): self.t = ''
        def write(self, s): self.t += s
    w = Weird(); use(None, w); check('message 1' in w.t, 'written'); same_state(before, 'weird stream')
    for enc in ('ascii', 'utf-8', 'latin-1', 'nonsense', None, 'UTF8'):
        w = Weird(); w.encoding = enc; use(None, w); check('message 1' in w.t, 'written')
        check(('┬' in w.t) == (enc in ('utf-8', 'UTF8')) or enc is None, 'drawn in the encoding of the stream')
        if enc in ('ascii', 'latin-1'): w.t.encode('ascii')


@case('nested trace')
def _():
    for level in LEVELS:
        L.logger.setLevel(level); before = state()
        ss = [io.StringIO() for _ in range(4)]
        def nest(i):
            st = state()
            if i == 4: return dill.dumps({'a': {}})
            with detect.trace(ss[i] if i != 2 else 'n.txt') as log:
                log('level %d', i); nest(i + 1); log('back %d', i)
            same_state(st, 'nested %d' % i)
        nest(0); same_state(before, 'nested')
        for i in (0, 1, 3): check('level %d' % i in ss[i].getvalue() and 'back %d' % i in ss[i].getvalue(), 'written')
        def nest2(i):
            st = state()
            try:
                with detect.trace(*(() if i & 1 else (ss[i],))):
                    if i == 3: raise Boom
                    nest2(i + 1)
            finally: same_state(st, 'unwound %d' % i)
        raises(Boom, nest2, 0); same_state(before, 'unwound')


@case('switching')
def _():
    for level in LEVELS:
        L.logger.setLevel(level); hs = list(L.logger.handlers)
        eq(detect.trace(True), None); eq(L.logger.level, logging.INFO); check(L.logger.isEnabledFor(logging.INFO))
        dill.dumps({'a': {}})
        eq(detect.trace(False), None); eq(L.logger.level, logging.WARNING); check(not L.logger.isEnabledFor(logging.INFO)); eq(L.logger.handlers, hs)
    # nothing is reported when tracing is off
    h = Collect(); L.logger.addHandler(h); dill.dumps(OBJ()); eq(h.records, []); L.logger.removeHandler(h)
    # a broken standard error
    import sys
    for bad in (None,):
        old, sys.stderr = sys.stderr, bad
        try:
            detect.trace(True); a = dill.dumps({'a': {}})
            with detect.trace(): b = dill.dumps({'a': {}})
            with detect.trace(io.StringIO()): b = dill.dumps({'a': {}})
        finally: sys.stderr = old; detect.trace(False)
        eq(a, dill.dumps({'a': {}})); eq(b, a)


@case('size units')
def _():
    f = L.TraceFormatter('%(prefix)s%(message)s%(suffix)s', handler=logging.StreamHandler(io.StringIO()))
    def show(n, **k): return f.format(logging.makeLogRecord(dict(msg='# X', depth=1, size=n, **k)))
    for n in [*range(-3, 3000), *(b + d for k in range(1, 60) for b in [1 << k] for d in (-1, 0, 1, 7)), *(1000 ** k for k in range(6)), *(1536 * 1024 ** k for k in range(4))]:
        if n >= 1 << 60: continue
        got = show(n); want = '# X' + ((' ' + human(n)) if n >= 1 else '')
        check(got.endswith(want) and (n >= 1 or 'B]' not in got), 'size %d is shown as %r, not %r' % (n, got, want))
    for k in range(10, 21):
        o = {'a': 'x' * (1 << k)}
        _, rec, text = traced(o); lines(text, rec, 'size')
    # records that are not part of a dump have neither prefix nor suffix
    eq(f.format(logging.makeLogRecord(dict(msg='plain %s', args=('x',)))), 'plain x')
