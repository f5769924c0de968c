from oracle import *
import pickletools, dill, io, os, sys, types, warnings, tempfile, gzip, bz2, lzma, socket, threading
import dill._dill as D, dill.session as S


def here(): sys.modules['c19'] = sys.modules[__name__]
def runtime_mod(name, **kw): m = types.ModuleType(name); m.__dict__.update(kw); return m
def stored(m, protocol=None):
    from dill.settings import settings
    old = settings['protocol']
    if protocol is not None: settings['protocol'] = protocol
    try: b = io.BytesIO(); dill.dump_module(b, m); return b.getvalue()
    finally: settings['protocol'] = old


NAMES = ['aa', 'a', 'pkg.sub', 'x_import_module', 'é', '日本.語', 'a' * 100, '__runtime__', 'GLOBAL', 'dill._dill2']


class Log:
    """a stream that records what is done with it"""
    def __init__(self, data, at=0, lacks=(), fails=(), peeks=None):
        self.f = io.BytesIO(data); self.f.seek(at); self.log = []; self.closed_ = False; self.peeks = peeks
        for n in ('read', 'readline', 'readinto', 'tell', 'seek', 'flush', 'peek'):
            if n in lacks or n == 'peek' and peeks is None: continue
            setattr(self, n, self.method(n, n in fails))
    def method(self, n, fails):
        def call(*a):
            self.log.append((n,) + tuple(a if n != 'readinto' else ()))
            if fails: raise fails_with
            if n == 'peek':
                p = self.f.tell(); d = self.f.read(min(a[0] if a and a[0] > 0 else 1 << 20, self.peeks)); self.f.seek(p); return d
            return getattr(self.f, n)(*a)
        return call
    def close(self): self.closed_ = True
fails_with = OSError('planned')


@case(timeout=100)
def name_and_position():
    here()
    for name in NAMES:
        for protocol in range(6):
            for kind in ('runtime', 'imported'):
                m = runtime_mod(name, v=1)
                if kind == 'imported': m.__loader__ = object(); sys.modules[name] = m
                if name == '__runtime__' and kind == 'imported': continue
                data = stored(m, protocol)
                if kind == 'imported': del sys.modules[name]
                want = name if kind == 'imported' else '__runtime__.' + name
                for at in (0, 1, 300):
                    for how in ('BytesIO', 'Log', 'noflush', 'peek', 'shortpeek'):
                        d = b'\x80' * at + data + b'rest'
                        f = io.BytesIO(d) if how == 'BytesIO' else Log(d, lacks=('flush',) if how == 'noflush' else (), peeks={'peek': 1 << 20, 'shortpeek': 3}.get(how))
                        f.seek(at)
                        p = S._make_peekable(f)
                        got = S._identify_module(p)
                        check(got == want, '%s %s module, protocol %d, at %d, %s: %r' % (kind, name[:20], protocol, at, how, got))
                        check(f.tell() == at, 'the position is unchanged: %r' % f.tell())


@case()
def main_session():
    print_ = child('''
import dill, io, sys
for p in range(2, 6):
    dill.settings['protocol'] = p
    b = f = S = None
    b = io.BytesIO(); dill.dump_module(b); d = b.getvalue()
    f = io.BytesIO(d); S = sys.modules['dill.session']
    assert S._identify_module(S._make_peekable(f)) == '__main__' and f.tell() == 0, p
print('done')
''')
    check(print_.strip() == 'done', print_)


@case()
def every_truncation():
    here()
    for protocol in range(6):
        data = stored(runtime_mod('aa', v=1), protocol)
        found = None
        for n in range(min(len(data), 200) + 1):
            f = io.BytesIO(data[:n])
            try: r = S._identify_module(S._make_peekable(f))
            except dill.UnpicklingError: r = None
            check(r in (None, '__runtime__.aa'), 'cut at %d: the name or an UnpicklingError: %r' % (n, r))
            check(f.tell() == 0 and not f.closed, 'position unchanged')
            if r is not None: found = n if found is None else found
            else: check(found is None, 'still found with more bytes')
            for main in (None, 'aa', runtime_mod('aa')):
                f = io.BytesIO(data[:n])
                try: r2 = S._identify_module(S._make_peekable(f), main)
                except dill.UnpicklingError: r2 = None
                check(r2 == r, 'naming the module makes no difference for a stream that can be peeked')
        check(found is not None, 'the whole name is enough')


@case()
def garbage():
    import pickle, random
    rnd = random.Random(Counter.seed)
    base = [b'', b'.', b'N.', pickle.dumps([1]), pickle.dumps('_import_module'), pickle.dumps(('_import_module', 3)), pickle.dumps(len), b'\xff' * 300, b'garbage',
            pickle.dumps(D._import_module)[:-1], pickle.dumps(D._import_module, 0), pickle.dumps(D._import_module, 4)] + [dill.dumps(x) for x in (1, here, Log)]
    for _ in range(200): base.append(bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 40))))
    for d in base:
        for main in (None, sys):
            f = io.BytesIO(b'ab' + d); f.seek(2)
            try: r = S._identify_module(S._make_peekable(f), main); check(r is not None and isinstance(r, str), 'a name: %r' % (r,))
            except dill.UnpicklingError: pass
            except Exception as e: check(False, 'garbage %r: UnpicklingError, not %r' % (d, e))
            check(f.tell() == 2, 'position unchanged')
        if d[:2] != b'\x80\x04' or b'_import_module' not in d:
            raises(dill.UnpicklingError, S._identify_module, S._make_peekable(io.BytesIO(d)))
    # the name is the first string after the first import function, wherever it comes
    first = pickle.dumps((D._import_module, 'first', 'second', D._import_module, 'third'), 4)
    check(S._identify_module(S._make_peekable(io.BytesIO(first))) == 'first', 'the first')
    first = pickle.dumps(('before', 'then', len, D._import_module, 5, 'first', 'second'), 3)
    check(S._identify_module(S._make_peekable(io.BytesIO(first))) == 'first', 'the first after the import function')


def fault_streams(data, at=0):
    for lacks in ((), ('tell',), ('seek',), ('tell', 'seek'), ('flush',), ('flush', 'tell')):
        for fails in ((), ('tell',), ('seek',), ('flush',), ('tell', 'seek')):
            yield lacks, fails, Log(data, at, lacks, fails)


@case()
def streams_that_cannot_be_peeked():
    here()
    data = stored(runtime_mod('aa', v=1))
    for lacks, fails, f in fault_streams(b'xyz' + data, 3):
        p = S._make_peekable(f)
        check([x for x in f.log if x[0].startswith('read')] == [], 'wrapping reads nothing')
        unpeekable = isinstance(p, S._PeekableReader) and (set(fails) - set(lacks) or {'tell', 'seek'} & set(lacks))
        what = 'lacks %s, fails %s' % (lacks, fails)
        if not isinstance(p, S._PeekableReader): continue
        if unpeekable:
            raises(dill.UnpicklingError, S._identify_module, p)
            check(f.f.tell() == 3, what + ': nothing consumed')
            for main in ('aa', runtime_mod('aa'), 0, ''): check(S._identify_module(p, main) is None, what + ': accepted: the module is named')
            check(f.f.tell() == 3, what + ': nothing consumed')
            t = runtime_mod('aa'); 
            check(dill.load_module(f, t) is None and t.v == 1, what + ': loaded into the module named')
        else:
            check(S._identify_module(p) == '__runtime__.aa' and f.f.tell() == 3, what)
            check(dill.load_module(f).v == 1, what)
        check(not f.closed_, 'not closed')


@case()
def wrapper_passes_everything_through():
    data = bytes(range(256)) * 3 + b'line\nline2\n'
    for at in (0, 5, 700):
        f = Log(data, at); r = io.BytesIO(data); r.seek(at); p = S._PeekableReader(f)
        for n in (0, 1, 7, 100, 10000, -1):
            check(p.peek(n) == r.getvalue()[r.tell():][:n if n >= 0 else None] and f.f.tell() == r.tell(), 'peek(%d)' % n)
            check(p.read(n) == r.read(n) and p.tell() == r.tell() == f.f.tell(), 'read(%d)' % n)
            f.f.seek(at); r.seek(at)
            check(p.readline() == r.readline() and p.tell() == r.tell(), 'readline')
        check(not f.closed_, 'open'); p.close(); check(f.closed_, 'close closes the stream')
    for n in ('read', 'readline', 'tell'):
        f = Log(data, 0, fails=(n,))
        check(raises(OSError, getattr(S._PeekableReader(f), n), *([3] if n == 'read' else [])) is None or True, n)
        check([x[0] for x in f.log] == [n], 'one call')
    check(S._make_peekable(b := io.BufferedReader(io.BytesIO(data))) is b, 'a stream with peek is used as it is')


@case('any position of a buffered file')
def any_position():
    here()
    tmp = tempfile.mkdtemp(); path = os.path.join(tmp, 's')
    data = stored(runtime_mod('aa', v=1))
    try:
        size = io.DEFAULT_BUFFER_SIZE
        for off in (0, 1, 255, size - 300, size - 100, size - 50, size - 10, size - 1, size, size + 1, 2 * size - 3):
            with open(path, 'wb') as f: f.write(b'x' * off + data + b'rest')
            for mk in (lambda: open(path, 'rb'), lambda: open(path, 'r+b'), lambda: open(path, 'rb', buffering=0), lambda: open(path, 'rb', buffering=64), lambda: io.BytesIO(open(path, 'rb').read())):
                with mk() as f:
                    check(len(f.read(off)) == off, 'read up to the session')
                    p = S._make_peekable(f)
                    check(S._identify_module(p) == '__runtime__.aa' and f.tell() == off, '%s at %d' % (type(f).__name__, off))
                    check(dill.load_module(f).v == 1 and f.read() == b'rest', 'loads, up to its end')
                    f.seek(off); check(dill.load_module_asdict(f)['v'] == 1 and f.read() == b'rest', 'as a dictionary too')
        for mod in (gzip, bz2, lzma):
            with mod.open(path, 'wb') as f: f.write(b'x' * 100 + data + b'rest')
            with mod.open(path, 'rb') as f:
                f.read(100); check(dill.load_module(f).v == 1 and f.read() == b'rest', mod.__name__)
    finally:
        os.remove(path); os.rmdir(tmp)


class Raw(io.RawIOBase):
    """an unseekable source"""
    def __init__(self, d): self.d = d
    def readable(self): return True
    def readinto(self, b): n = min(len(b), len(self.d)); b[:n] = self.d[:n]; self.d = self.d[n:]; return n


@case()
def unseekable_streams():
    here()
    data = stored(runtime_mod('aa', v=1))
    f = io.BufferedReader(Raw(data + b'rest'))
    check(S._identify_module(S._make_peekable(f)) == '__runtime__.aa', 'a buffered unseekable stream')
    check(dill.load_module(f).v == 1 and f.read() == b'rest', 'is loaded up to its end')
    for kw in ({}, {'module': runtime_mod('aa')}):
        r, w = os.pipe(); os.write(w, data); os.close(w)
        with os.fdopen(r, 'rb') as f: m = dill.load_module(f, **kw); check((m or kw['module']).v == 1 and f.read() == b'', 'a pipe')
    r, w = os.pipe(); os.write(w, data); os.close(w); t = runtime_mod('aa')
    with os.fdopen(r, 'rb', buffering=0) as f:
        raises(dill.UnpicklingError, dill.load_module, f)
        check(dill.load_module(f, t) is None and t.v == 1, 'a raw pipe needs the module')
    a, b = socket.socketpair()
    with a, b:
        a.sendall(data + data)
        with b.makefile('rb') as f: check(dill.load_module(f).v == 1, 'a socket'); check(dill.load_module(f).v == 1, 'two sessions in a row')


@case()
def several_in_one_stream():
    here()
    ms = [runtime_mod('m%d' % i, v='x' * i * 50) for i in range(1, 12)]
    for protocol in range(6):
        d = b''.join(stored(m, protocol) for m in ms)
        for mk in (io.BytesIO, lambda d: io.BufferedReader(io.BytesIO(d)), lambda d: io.BufferedReader(io.BytesIO(d), 100), lambda d: io.BufferedReader(Raw(d), 1 << 20), Log):
            f = mk(d)
            for m in ms:
                r = dill.load_module(f); check(r.__name__ == m.__name__ and r.v == m.v, 'session %s of a stream: %r' % (m.__name__, r))
