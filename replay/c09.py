from oracle import *
import dill, io, os, sys, pickle, random, itertools, builtins
import dill._dill as D
import _pyio, _io

H, C, F = dill.HANDLE_FMODE, dill.CONTENTS_FMODE, dill.FILE_FMODE
FM = {H: 'HANDLE', C: 'CONTENTS', F: 'FILE'}


class Opens:
    """the files opened while loading"""
    def __enter__(self):
        self.names = []
        self.o, self.bo = os.open, io.open
        def o(name, *a, **k):
            self.names.append(name); return self.o(name, *a, **k)
        def b(name, *a, **k):
            self.names.append(name); return self.bo(name, *a, **k)
        os.open = o; io.open = _io.open = b
        return self
    def __exit__(self, *a): os.open = self.o; io.open = _io.open = self.bo


def dumps(f, fmode, strict=False, cls=dill.Pickler):
    b = io.BytesIO(); p = cls(b, fmode=fmode); p._strictio = strict; p.dump(f)
    return b.getvalue()


def content(name):
    try:
        with open(name, 'rb') as f: return f.read()
    except FileNotFoundError: return None


def put(name, data):
    if data is None:
        if os.path.exists(name): os.remove(name)
    else:
        with open(name, 'wb') as f: f.write(data)


def temp(f, name):
    """an unnamed, or no longer existing, temporary file"""
    return type(f.name) is int or not os.path.exists(f.name) and f.name != name


def verify(blob, name, mode, pos, closed, strict, fmode, now, dumped, label):
    """what loading must do, given the state now of the file: `now` its contents (None: missing)"""
    put(name, now)
    size = 0 if now is None else len(now)
    w = mode.replace('b', '').replace('t', '')
    if strict and now is None:
        with Opens() as o: raises(FileNotFoundError, dill.loads, blob)
        check(o.names == [] and content(name) is None, label + ': nothing opened'); return
    if strict and pos > size:
        with Opens() as o: raises(ValueError, dill.loads, blob)
        check(o.names == [] and content(name) == now, label + ': nothing opened'); return
    if fmode == H and 'x' in w and now is not None:
        raises(dill.UnpicklingError, dill.loads, blob)
        eq(content(name), now, label); return
    f = dill.loads(blob)
    try:
        check(f.closed is closed, '%s: closed is %r' % (label, f.closed))
        isr = w.startswith('r')
        if now is None and isr and fmode != F:
            check(temp(f, name), '%s: temporary file, got %r' % (label, f.name))
            check(content(name) is None, label + ': file not created')
            if not closed:
                if 'b' in mode or '+' not in mode or True: check(f.read() in ('', b''), label + ': empty')
            return
        eq(f.name, name, label + ': name')
        if fmode == F:
            check(sorted(f.mode) == sorted(mode) or 'x' in mode and sorted(f.mode) == sorted(mode.replace('x', 'w')), '%s: mode %r' % (label, f.mode))
        else: eq(f.mode, mode, label + ': mode')
        if not closed:
            tell = f.tell()
            if fmode == H: want = size if w.startswith('a') else 0
            elif fmode == C: want = min(pos, size)
            else: want = pos
            eq(tell, want, label + ': position')
            f.flush()
        if fmode == F: left = dumped
        elif fmode == H and w.startswith('w'): left = b''
        else: left = now if now is not None else b''
        eq(content(name), left, label + ': contents')
        if not closed:           # the handle can do what its mode says
            eq((f.readable(), f.writable()), (isr or '+' in w, not isr or '+' in w), label + ': direction')
            if isr or '+' in w:
                f.seek(0)
                got = f.read()
                eq(got if isinstance(got, bytes) else got.encode(), left, label + ': reads')
    finally:
        f.close()


def handles(modes, fmodes, opener=open, nows=None, positions=(0, 3, 7), kw={}):
    name = os.path.join(os.getcwd(), 'the_file.txt')
    start = b'abc\ndefghi'
    for mode, fmode, strict, closed, p in itertools.product(modes, fmodes, (False, True), (False, True), positions):
        put(name, None if 'x' in mode else start)
        f = opener(name, mode, **kw)
        b = 'b' in mode
        if 'r' not in mode: f.write(b'0123456789' if b else '0123456789')
        f.flush(); f.seek(p)
        eff = f.mode
        pos = 0 if closed else p
        if closed: f.close()
        before = content(name)
        blob = dumps(f, fmode, strict)
        eq(content(name), before, 'dumping leaves the file')
        check(f.closed is closed and (closed or f.tell() == p), 'dumping leaves the handle')
        f.close()
        for now in nows or (None, b'', b'ab', before, before + b'more of it'):
            label = '%s %s strict=%s closed=%s pos=%d now=%r' % (eff, FM[fmode], strict, closed, p, now)
            verify(blob, name, eff, pos, closed, strict, fmode, now, before, label)
    put(name, None)


TEXT = ('r', 'r+', 'w', 'w+', 'a', 'a+', 'x', 'x+')

@case('text handles', timeout=120)
def text_handles(): handles(TEXT, (H, C, F))

@case('binary handles', timeout=120)
def binary_handles(): handles(('rb', 'rb+', 'wb', 'wb+', 'ab', 'ab+', 'xb', 'xb+'), (H, C))

@case('unbuffered handles')
def unbuffered_handles():
    # the mode of an unbuffered handle is that of its descriptor; buffering is not part of a pickled handle
    handles(('rb', 'wb', 'ab'), (H, C), kw=dict(buffering=0))


@case('pure Python handles')
def pure_python_handles():
    name = os.path.join(os.getcwd(), 'p.txt'); put(name, b'hello world')
    for mode in ('r', 'r+', 'rb', 'rb+', 'a', 'w', 'wb'):
        for fmode in (H, C):
            put(name, b'hello world')
            f = _pyio.open(name, mode)
            if 'r' in mode: f.seek(4)
            else: f.write('0123456' if 'b' not in mode else b'0123456'); f.flush()
            p = f.tell(); m = f.mode
            g = dill.copy(f, fmode=fmode)
            if not (fmode == C and 'w' in mode): check(type(g) is type(f), 'class %r' % type(g))
            eq((g.name, g.mode, g.closed), (name, m, False), '%s %s' % (mode, FM[fmode]))
            if fmode == C: eq(g.tell(), p, 'position %s' % mode)
            g.close(); f.close()


@case('standard streams')
def standard_streams():
    out = child('''if 1:
        import sys, dill
        import io
        def dumps(f, fmode, strict):
            b = io.BytesIO(); p = dill.Pickler(b, fmode=fmode); p._strictio = strict; p.dump(f)
            return b.getvalue()
        from dill import HANDLE_FMODE as H, CONTENTS_FMODE as C, FILE_FMODE as F
        for fmode in (H, C, F):
            for strict in (False, True):
                for f in (sys.__stdin__, sys.__stdout__, sys.__stderr__):
                    g = dill.loads(dumps(f, fmode, strict))
                    assert g is f, (fmode, g)
        class T: pass
        keep = sys.stdout
        import io
        b = dill.dumps(sys.stdout)
        sys.stdout = io.StringIO()
        assert dill.loads(b) is sys.__stdout__
        sys.stdout = keep
        print('ok')
    ''')
    check(out.strip() == 'ok', 'standard streams: %s' % out)


@case('failures to open')
def failures_to_open():
    d = os.path.join(os.getcwd(), 'd'); os.mkdir(d)
    name = os.path.join(d, 'f'); put(name, b'12345')
    for mode, fmode in itertools.product(('r', 'r+', 'w', 'a', 'w+'), (H, C, F)):
        put(name, b'12345')
        f = open(name, mode); blob = dill.dumps(f, fmode=fmode); f.close()
        os.remove(name); os.mkdir(name)                    # a directory in its place
        e = raises(dill.UnpicklingError, dill.loads, blob)
        os.rmdir(name)
        os.remove(name) if os.path.exists(name) else None
        if 'r' not in mode or fmode == F:                  # its folder is gone
            os.rmdir(d)
            raises(dill.UnpicklingError, dill.loads, blob)
            os.mkdir(d)
        # any error of the operating system
        put(name, b'12345')
        b, o = io.open, os.open
        for err in (PermissionError(13, 'no'), OSError(24, 'many'), FileExistsError(17, 'x'), InterruptedError(4, 'i')):
            def bad(*a, **k): raise err
            io.open = _io.open = os.open = bad
            try: raises(dill.UnpicklingError, dill.loads, blob)
            finally: io.open = _io.open = b; os.open = o
            eq(content(name), b'12345', 'untouched')


@case('truncation')
def truncation():
    """with CONTENTS_FMODE nothing is ever cut off, with any write mode, even at the instant of opening"""
    name = os.path.join(os.getcwd(), 't'); data = b'0123456789' * 3
    for mode in ('w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'r+', 'rb+', 'x', 'x+', 'xb'):
        for closed in (False, True):
            if 'x' in mode: put(name, None)
            else: put(name, data)
            f = open(name, mode)
            f.write('01234' if 'b' not in mode else b'01234'); f.flush()
            if closed: f.close()
            blob = dill.dumps(f, fmode=C); f.close(); put(name, data)
            seen = []
            o, b = os.open, io.open
            def oo(n, fl, *a, **k):
                r = o(n, fl, *a, **k); seen.append(os.path.getsize(name)); return r
            def bb(n, *a, **k):
                r = b(n, *a, **k); seen.append(os.path.getsize(name)); return r
            os.open = oo; io.open = _io.open = bb
            try: g = dill.loads(blob)
            finally: os.open = o; io.open = _io.open = b
            g.close()
            eq(content(name), data, 'contents %s' % mode)
            check(all(n == len(data) for n in seen), 'never cut off: %s %r' % (mode, seen))


@case('arbitrary fields', timeout=90)
def arbitrary_fields():
    """the constructor itself, on fields no handle of this interpreter may give"""
    name = os.path.join(os.getcwd(), 'q'); rng = random.Random(Counter.seed)
    for _ in range(400 if Counter.tier == 'quick' else 4000):
        mode = rng.choice(['r', 'r+', 'w', 'w+', 'a', 'a+'])
        size = rng.choice([None, 0, 1, 5, 4096, 70000]); pos = rng.choice([0, 1, 4, 5, 6, 4095, 4096, 69999, 100000])
        fmode = rng.choice([H, C, F]); strict = rng.random() < .3; closed = rng.random() < .3
        data = None if size is None else b'x' * size
        fdata = 'y' * rng.choice([0, 3, 5000])
        class Blob: pass
        args = (name, mode, pos, closed, open, strict, fmode, fdata)
        put(name, data)
        blob = pickle.dumps(None)
        class Re:
            def __reduce__(self): return D._create_filehandle, args
        blob = dill.dumps(Re())
        verify(blob, name, mode, 0 if closed else pos, closed, strict, fmode, data, fdata.encode(), repr(args)) if not (closed and pos) else None


@case('temporary for reading')
def temporary_for_reading():
    name = os.path.join(os.getcwd(), 'gone')
    for mode in ('r', 'rb', 'r+', 'rb+'):
        for fmode in (H, C):
            for closed in (False, True):
                put(name, b'abc'); f = open(name, mode); f.read(2)
                if closed: f.close()
                blob = dill.dumps(f, fmode=fmode); f.close(); os.remove(name)
                g = dill.loads(blob)
                check(g.closed is closed, 'closed')
                check(not os.path.exists(name), 'not created')
                if not closed: check(g.read() in ('', b''), 'empty')
                g.close()
        put(name, b'abc'); f = open(name, mode if 'b' not in mode else 'r'); f.read(2)
        blob = dill.dumps(f, fmode=F); f.close(); os.remove(name)
        g = dill.loads(blob); eq(g.tell(), 2, 'position'); eq(g.read(), 'c', 'rest'); g.close()
        eq(content(name), b'abc', 'recreated')


@case('options')
def options():
    """strictness and file mode are those of the pickler; another pickler takes a plain handle"""
    name = os.path.join(os.getcwd(), 'o'); put(name, b'abcdef')
    f = open(name); f.read(3)
    import pickletools
    def args(blob):
        seen = []
        def rec(*a): seen.append(a); return None
        keep = D._create_filehandle
        D._create_filehandle = rec
        try: dill.loads(blob)
        finally: D._create_filehandle = keep
        return seen[0]
    for fmode in (H, C, F):
        for strict in (False, True):
            a = args(dumps(f, fmode, strict))
            eq((a[0], a[1], a[2], a[3]), (name, 'r', 3, False), 'fields'); eq((a[5], a[6], a[7]), (strict, fmode, 'abcdef' if fmode == F else ''), 'options')
            class Sub(dill.Pickler): pass
            a = args(dumps(f, fmode, strict, Sub)); eq((a[5], a[6]), (strict, fmode), 'options of a subclass')
    b = io.BytesIO(); P = pickle._Pickler(b); P.dispatch = dill.Pickler.dispatch; P.dump(f)
    a = args(b.getvalue()); eq((a[5], a[6], a[7]), (False, H, ''), 'another pickler')
    f.close()


@case('line ends')
def line_ends():
    name = os.path.join(os.getcwd(), 'crlf'); put(name, b'a\r\nb\rc\n')
    f = open(name); blob = dill.dumps(f, fmode=F); f.close(); os.remove(name)
    dill.loads(blob).close()
    eq(content(name), b'a\r\nb\rc\n', 'contents')


@case('text beyond ASCII')
def text_beyond_ascii():
    name = os.path.join(os.getcwd(), 'u'); text = '\xe9\u20ac\U0001f600\nz' * 50; put(name, text.encode())
    for fmode in (C, F):
        f = open(name, encoding=None); f.read(7); p = f.tell(); rest = f.read(); f.seek(p)
        blob = dill.dumps(f, fmode=fmode); f.close()
        g = dill.loads(blob); eq(g.tell(), p, 'position'); eq(g.read(), rest, 'rest'); g.close()
        eq(content(name), text.encode(), 'contents')
