from oracle import *
import dill, sys, os, io, tempfile, random, types, shutil, contextlib, itertools
import dill.temp as T
from dill.temp import capture
from dill.source import importable, getname


def here():
    d = os.environ.get('C23_DIR')
    if not d: d = os.environ['C23_DIR'] = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, d, True)
    return d
def uni(): return 5
class Boom(Exception): pass
class Base(BaseException): pass
NAMES = ('stdout', 'stderr', 'stdin', '__stdout__', '__stderr__', '__stdin__')


@case('capture')
def _():
    class Odd: pass
    exits = ['normal', 'Boom', 'Base', 'exit', 'return', 'generator closed', 'break', 'StopIteration', 'GeneratorExit', 'replaced', 'deleted', 'closed']
    def run(name, how, inside):
        before = {n: getattr(sys, n) for n in NAMES}; orig = before[name]; held = []
        def body():
            for _ in range(2):
                with capture(name) as out:
                    now = getattr(sys, name)
                    held.append(out is now and type(out) is io.StringIO and out is not orig and out.getvalue() == '' and all(getattr(sys, n) is before[n] for n in NAMES if n != name))
                    inside(name, out, held)
                    if how == 'Boom': raise Boom
                    if how == 'Base': raise Base
                    if how == 'exit': sys.exit(3)
                    if how == 'return': return 5
                    if how == 'break': break
                    if how == 'StopIteration': raise StopIteration
                    if how == 'GeneratorExit': raise GeneratorExit
                    if how == 'replaced': setattr(sys, name, Odd())
                    if how == 'deleted': delattr(sys, name)
                    if how == 'closed': out.close()
                held.append(getattr(sys, name) is orig)
        def gen():
            with capture(name) as out: held.append(getattr(sys, name) is out); yield 1
        try:
            if how == 'generator closed': g = gen(); next(g); g.close()
            else: body(); x = None
        except (Boom, Base, SystemExit, StopIteration, GeneratorExit, RuntimeError) as e: x = e
        finally:
            bad = [n for n in NAMES if getattr(sys, n, None) is not before[n]]
            for n in NAMES: setattr(sys, n, before[n])
        check(not bad, '%s not restored after %s' % (bad, how)); check(all(held), 'the stream inside: %r %s %s' % (held, name, how))
        want = {'Boom': Boom, 'Base': Base, 'exit': SystemExit, 'StopIteration': StopIteration, 'GeneratorExit': GeneratorExit}.get(how)
        if how != 'generator closed': check(type(x) is want if want else x is None, 'what the block raises is raised: %r' % x)
    def nothing(n, o, h): pass
    def writes(n, o, h):
        o.write('a'); getattr(sys, n).write('b'); h.append(o.getvalue() == 'ab')
        if n == 'stdout': print('x'); h.append(o.getvalue() == 'abx\n')
    def nested(n, o, h):
        with capture(n) as p:
            p.write('inner'); h.append(p is not o and getattr(sys, n) is p)
            with capture('stderr' if n != 'stderr' else 'stdout') as q: h.append(getattr(sys, n) is p)
        h.append(getattr(sys, n) is o and o.getvalue() == '' and p.getvalue() == 'inner')
    def raising(n, o, h):
        try:
            with capture(n): raise Boom
        except Boom: pass
        h.append(getattr(sys, n) is o)
    for n in NAMES:
        for how in exits:
            for f in (nothing, writes, nested, raising): run(n, how, f)
    # any stream may be in place
    for odd in (None, Odd(), io.StringIO(), io.BytesIO(), 0, ''):
        for n in ('stdout', 'stdin', 'stderr'):
            old = getattr(sys, n); setattr(sys, n, odd)
            try:
                with capture(n) as o: o.write('z')
                ok = getattr(sys, n) is odd
                try:
                    with capture(n): raise Boom
                except Boom: pass
                ok = ok and getattr(sys, n) is odd
            finally: setattr(sys, n, old)
            check(ok, 'put back')
    with capture() as o: print('default')
    eq(o.getvalue(), 'default\n')
    before = dict(vars(sys)); raises(AttributeError, lambda: capture('no_such').__enter__()); check(vars(sys).keys() == before.keys())
    # interleaved
    a, b = capture(), capture(); old = sys.stdout
    x = a.__enter__(); y = b.__enter__(); b.__exit__(None, None, None); ok = sys.stdout is x; a.__exit__(None, None, None); check(ok and sys.stdout is old)


def values(rng, n):
    def leaf(): return rng.choice([1, -5, 'x', 'é日\x00', None, True, 1.5, b'\xff\n\r\n', (), 10 ** 30, 'line\r\n\n', '#NAME: x'])
    def val(d): return leaf() if not d else rng.choice([lambda: [val(d - 1) for _ in range(rng.randrange(4))], lambda: {str(i): val(d - 1) for i in range(rng.randrange(4))}, lambda: tuple(val(d - 1) for _ in range(3)), lambda: frozenset([1, 'a', leaf()])])()
    return [val(rng.randrange(4)) for _ in range(n)]


@case('objects')
def _():
    rng = random.Random(Counter.seed); d = here()
    vs = values(rng, 60 if Counter.tier == 'quick' else 600) + [list(range(100000)), b'x' * 300000, 'é' * 70000]
    for v in vs:
        h = T.dumpIO(v); check(type(h) is io.BytesIO); eq(T.loadIO(h), v); eq(T.loadIO(h.getvalue()), v); eq(T.loadIO(h), v, 'again'); eq(dill.loads(h.getvalue()), v)
        eq(h.tell(), len(h.getvalue()), 'at its end')
        f = T.dump(v)
        with open(f.name, 'rb') as g: raw = g.read()
        eq(dill.loads(raw), v, 'complete before it is closed')
        eq(T.load(f), v); eq(T.load(f.name), v); eq(T.load(f, mode='rb'), v); eq(T.load(f, mode='r'), v, 'mode r'); eq(T.load(f, buffering=512), v)
        name = f.name; f.close(); check(not os.path.exists(name), 'a temporary file')
    for v in (lambda x: x + 1, types.FunctionType((lambda: 'é').__code__, {})): 
        f = T.dump(v); g = T.load(f); eq(g.__code__.co_consts, v.__code__.co_consts); h = T.loadIO(T.dumpIO(v)); eq(h.__code__.co_code, v.__code__.co_code)
    class Bad:
        def __reduce__(self): raise Boom
    raises(Boom, T.dump, Bad()); raises(Boom, T.dumpIO, [1, Bad()])


@case('keyword arguments')
def _():
    d = here()
    f = T.dump([1], dir=d, prefix='pre', suffix='.suf'); b = os.path.basename(f.name); check(os.path.dirname(f.name) == d and b.startswith('pre') and b.endswith('.suf')); n = f.name; del f; check(not os.path.exists(n), 'deleted with its handle')
    f = T.dump([1], dir=d, delete=False); f.close(); check(os.path.exists(f.name), 'kept'); eq(T.load(f.name), [1]); os.unlink(f.name)
    f = T.dump([1], mode='w+b', buffering=0); eq(T.load(f), [1]); f = T.dump([2], bufsize=0) if False else T.dump([2], delete=True); eq(T.load(f), [2])
    raises(TypeError, T.dump, [1], nonsense=1); raises(TypeError, T.load, f, nonsense=1); raises(TypeError, T.dump_source, uni, nonsense=1)
    f = T.dump_source(uni, dir=d, prefix='p_', suffix='.txt', alias='q'); b = os.path.basename(f.name); check(os.path.dirname(f.name) == d and b.startswith('p_') and b.endswith('.py') and not b.endswith('.txt.py')); eq(T.load_source(f)(), uni())
    f = T.dump_source(uni, dir=d, delete=False); f.close(); check(os.path.exists(f.name)); eq(T.load_source(f)(), uni()); eq(T.load_source(f.name)(), uni()); os.unlink(f.name)
    # exactly what was given is passed on
    got = []
    real, ropen = tempfile.NamedTemporaryFile, open
    class Rec(Exception): pass
    def fake(*a, **k): got.append((a, k)); raise Rec
    tempfile.NamedTemporaryFile = fake
    try:
        for k in ({}, dict(dir='/x'), dict(prefix='p', dir='q', delete=False), dict(delete=True), dict(mode='wb', buffering=7, errors='x'), dict(suffix='s'), dict(zzz=1)):
            raises(Rec, T.dump, 1, **k); eq(got.pop(), ((), dict({'delete': True}, **k)), 'temp.dump'); 
            for al in ({}, {'alias': 'A'}):
                raises(Rec, T.dump_source, uni, **k, **al); want = dict({'delete': True}, **k); want['suffix'] = '.py'; eq(got.pop(), ((), want), 'dump_source')
    finally: tempfile.NamedTemporaryFile = real
    T.open = fake
    try:
        for k in ({}, dict(buffering=3), dict(closefd=True, opener=None), dict(zzz=1)):
            for m in ({}, {'mode': 'rb'}):
                raises(Rec, T.load, 'fname', **k, **m); a, kk = got.pop(); eq(a, ('fname',)); eq(kk, dict(k, mode='rb'), 'temp.load')
                raises(Rec, T.load_source, 'fname', **k, **m); a, kk = got.pop(); eq(a, ('fname',)); eq({x: y for x, y in kk.items() if x != 'encoding'}, dict(k, mode=m.get('mode', 'r')), 'load_source')
        for k in (dict(encoding='latin-1'), dict(encoding=None), dict(newline='', encoding='utf-16')):
            raises(Rec, T.load_source, 'fname', alias='z', **k); eq(got.pop(), (('fname',), dict(k, mode='r')), 'encoding given')
    finally: del T.open


SOURCES = __file__.replace('c23.py', 'c23_sources.py')


@case('sources')
def _():
    eq(T.loadIO_source(b'a = 1\nb = 2\n\n#NAME: a\n', alias='b'), 2, 'the given alias'); eq(T.loadIO_source(b'a = 1\nb = 2\n\n#NAME: a\n'), 1, 'the recorded name')
    raises(NameError, T.loadIO_source, b'a = 1\n\n#NAME: b\n'); raises(NameError, T.loadIO_source, b'a = 1\n\n#NAME: a\n', alias='b')
    src = b'k = 3\ndef f(x): return x + k + (f(x - 1) if x else 0)\n\n#NAME: f\n'; p = os.path.join(here(), 'own.py')
    with open(p, 'wb') as g: g.write(src)
    for r in (T.loadIO_source(src), T.load_source(p), T.load_source(p, mode='rb'), T.load_source(p, alias='f')): eq(r(2), 12, 'names of the source are seen by its functions')
    # a namespace of its own
    before = dict(vars(T)); T.loadIO_source(b'capture = 1\nopen = 2\n\n#NAME: capture\n'); check(vars(T).keys() == before.keys() and all(vars(T)[k] is before[k] for k in before), 'nothing else is bound')
    r = T.loadIO_source(b'def f():\n    return 1\nx = f()\n\n#NAME: f\n'); check(r.__globals__ is not vars(T) and r.__globals__ is not globals() and r.__globals__['x'] == 1)
    q = T.loadIO_source(b'def f():\n    return 1\nx = f()\n\n#NAME: f\n'); check(q.__globals__ is not r.__globals__, 'and a new one each time')


@case('sources of a program', timeout=150)
def _():
    """functions and classes of the program, with all their source; imports for the others; whatever the locale"""
    import subprocess
    for env in ({}, {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}, {'LC_ALL': 'C.UTF-8'}, {'PYTHONUTF8': '1'}, {'LC_ALL': 'POSIX'}):
        p = subprocess.run([sys.executable, SOURCES, here()], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8', **env), capture_output=True, text=True, encoding='utf-8')
        check(p.returncode == 0, '%r: %s' % (env, p.stderr[-400:])); Counter.n += int(p.stdout.split()[-1])


@case('names that are not recorded')
def _():
    d = here()
    texts = ['', '\n', ' \n\t\n', 'x = 1', 'x = 1\n', 'x = 1\n# NAME: x\n', 'x = 1\n#NAME:\n', 'x = 1\n#NAMES: x\n', '#NAME: x\nx = 1\n', 'x = 1\n#NAME x\n', '#NAME:', 'x=1\n#name: x', '\x0c', '\x1c', '\x85', '#', 'x = "é"\n', 'x = 1 #NAME: x\n', "'''\n#NAME: x\n'''"]
    for t in texts:
        p = os.path.join(d, 'src.py')
        with open(p, 'wb') as g: g.write(t.encode())
        for al in ({}, {'alias': None}, {'alias': ''}):
            raises(IOError, T.loadIO_source, t.encode(), **al); raises(IOError, T.loadIO_source, io.BytesIO(t.encode()), **al)
            for m in ({}, {'mode': 'r'}, {'mode': 'rb'}): raises(IOError, T.load_source, p, **al, **m)
        eq(T.loadIO_source(t.encode(), alias='5'), 5) if t not in ('\x1c', '\x85') else None
    for t in ('x = 1\n#NAME: x', 'x = 1\n#NAME: x\n', 'x = 1\n\n#NAME: x\n\n\n', 'x = 1\n #NAME: x \n', 'x = 1\n#NAME:  x\n  '):
        eq(T.loadIO_source(t.encode()), 1)
        with open(p, 'wb') as g: g.write(t.encode())
        eq(T.load_source(p), 1); eq(T.load_source(p, mode='rb'), 1)
    # objects without a name
    for o in ([1, 2], 5, None, 'abc', (1, 'é'), {'a': 1}, True, 1.5):
        raises(IOError, T.loadIO_source, T.dumpIO_source(o)); f = T.dump_source(o); raises(IOError, T.load_source, f); raises(IOError, T.load_source, f, mode='rb')
        eq(T.loadIO_source(T.dumpIO_source(o, alias='q')), o); eq(T.load_source(T.dump_source(o, alias='q')), o); eq(T.loadIO_source(T.dumpIO_source(o, alias='q'), alias='q'), o)
