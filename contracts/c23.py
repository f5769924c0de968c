from contracts.common import *
import io, tempfile, codecs

def given_str(v): return v is not ABSENT and v is not NONE


KW = z3.ArraySort(V, OV)
key = lambda s: z3.simplify(V.strv(z3.StringVal(s)))


def given(m, **known):
    """any keyword arguments; those named are as given (ABSENT, a value, or None: any)"""
    a = m.ctx.fresh('kwargs', KW)
    for n, v in known.items():
        if v is ABSENT: m.assume(OV.is_absent(z3.Select(a, key(n))))
        elif v is not None: m.assume(z3.Select(a, key(n)) == OV.some(term(v)))
    return DMap(a, (), K_STR, ANY), a


def passed(m, a, kw):
    """the keyword arguments a function is called with, as an array; positional ones must be as expected by the caller"""
    arr = EMPTYD
    if '**' in kw: arr = kw['**'].array()
    for n, v in kw.items():
        if n != '**': arr = z3.Store(arr, key(n), OV.some(term(v)))
    return arr


class Streams:
    """the attributes of sys, by name"""
    def __init__(self, m):
        self.m = m; self.S = m.ctx.fresh('sys', z3.ArraySort(STR, OV)); self.puts = []
        def get(mm, a):
            mm.prove('the attributes of sys', isinstance(a[0], C) and a[0].v is sys); o = z3.Select(self.S, zstr(a[1]))
            if mm.ctx.branch(OV.is_absent(o)):
                if len(a) > 2: return a[2]
                mm.raise_(AttributeError, a[1])
            for n, v in reversed(self.puts):
                if mm.ctx.branch(n == zstr(a[1])): return v
            return mm.as_kind(OV.val(o), ANY)
        def put(mm, a):
            mm.prove('the attributes of sys', isinstance(a[0], C) and a[0].v is sys)
            self.puts.append((zstr(a[1]), a[2])); self.S = z3.Store(self.S, zstr(a[1]), OV.some(term(a[2]))); return NONE
        m.ghost['getattr_hook'] = get; m.ghost['setattr_hook'] = put
    def any(self): self.puts = []; self.S = self.m.ctx.fresh('sys', z3.ArraySort(STR, OV))


@unit('C23', 'capture', ['dill.temp:capture'], covers=['no such stream', 'normal exit', 'the block raises'])
def capture(m):
    """any stream name, any value of it, any block (that may change sys in any way and raise anything): a fresh buffer within, the original afterwards, nothing else changed"""
    s = Streams(m); name = m.sym('name', K_STR); start = s.S; orig = z3.Select(start, name.t); k = m.ctx.fresh('other', STR); made = []
    m.assume(k != name.t)
    def buf(mm, a, kw):
        mm.prove('an empty buffer', not kw and all(mm.eq(x, C('')) is True for x in a)); o = mm.alloc(io.StringIO); made.append(o); return o
    m.overrides = dict(m.overrides); m.overrides[host_rid(io.StringIO)] = buf
    boom = m.sym_exc('boom'); st = {}
    def body(v):
        st['n'] = st.get('n', 0) + 1
        m.prove('a new buffer is in place', len(made) == 1 and m.is_(v, made[0]) is True)
        m.prove('under the name', z3.Select(s.S, name.t) == OV.some(term(v))); m.prove('and nowhere else', z3.Select(s.S, k) == z3.Select(start, k))
        s.any(); st['after'] = s.S
        if m.ctx.choose(2): st['raised'] = 1; raise PyRaise(boom)
    out, r = 'return', None
    try: m.run_cm(m.call(C(TEMP.capture), [name], {}), body)
    except PyRaise as e: out, r = 'raise', e.val
    if m.ctx.branch(OV.is_absent(orig)):
        m.cover('no such stream'); m.prove('nothing is run', 'n' not in st); m.prove('nothing is changed', s.S == start)
        m.prove('it is an AttributeError', out == 'raise' and m.isinst_formula(r, AttributeError)); return
    m.prove('the block runs once', st.get('n') == 1)
    if st.get('n') != 1: return
    m.prove('the original is back', z3.Select(s.S, name.t) == orig)
    m.prove('all else is as the block left it', z3.Select(s.S, k) == z3.Select(st['after'], k))
    if 'raised' in st: m.cover('the block raises'); m.prove('what the block raised is raised', out == 'raise' and m.is_(r, boom))
    else: m.cover('normal exit'); m.prove('no exception', out == 'return')


class Files:
    """temporary files and buffers: what is written to them, in order"""
    def __init__(self, m):
        self.m = m; self.log = []; self.calls = []; self.exc = m.sym_exc('failure')
        def method(n):
            def f(mm, o, a, kw):
                self.log.append((n, o, a))
                mm.prove('%s takes what it takes' % n, not kw)
                return NONE
            return f
        self.kind = Kind('file', cons='ref', methods={n: method(n) for n in ('write', 'flush')}, attrs={'name': K_STR, 'file': ANYREF})
        m.overrides = dict(m.overrides)
        def temp(mm, a, kw):
            self.calls.append((a, passed(mm, a, kw)))
            if mm.ctx.choose(2): self.log.append(('raised',)); raise PyRaise(self.exc)
            self.file = mm.sym('file', self.kind); return self.file
        m.overrides[host_rid(tempfile.NamedTemporaryFile)] = temp
        def buffer(mm, a, kw):
            self.calls.append((a, kw))
            if a: o = mm.sym('input', Kind('input', cons='ref')); self.file = o; self.content = a[0]; return o
            self.file = mm.sym('buffer', self.kind); return self.file
        m.overrides[host_rid(io.BytesIO)] = buffer
        def dump(mm, a, kw):
            self.log.append(('dump', a, kw))
            if mm.ctx.choose(2): self.log.append(('raised',)); raise PyRaise(self.exc)
            return NONE
        m.overrides[host_rid(D.dump)] = dump
        self.loaded = m.sym('loaded', ANY)
        def load(mm, a, kw):
            self.log.append(('load', a, kw))
            if mm.ctx.choose(2): self.log.append(('raised',)); raise PyRaise(self.exc)
            return self.loaded
        m.overrides[host_rid(D.load)] = load
    def failed(self, out, r):
        if ('raised',) in self.log:
            self.m.prove('the failure is passed on', self.log[-1] == ('raised',) and out == 'raise' and self.m.is_(r, self.exc)); return True
        self.m.prove('returns normally', out == 'return')
        return out != 'return'


@unit('C23', 'objects are stored', ['dill.temp:dump', 'dill.temp:dumpIO'], covers=['file', 'buffer', 'failed'])
def stored(m):
    """any object, any keyword arguments: they reach the file function (with delete=True unless given); the object is dumped, then flushed, and the handle returned"""
    f = Files(m); obj = m.sym('obj', ANY); which = m.ctx.choose(2); m.cover(('file', 'buffer')[which])
    kw, arr = given(m, object=ABSENT)
    out, r = m.run((TEMP.dump, TEMP.dumpIO)[which], [obj], {}, kw)
    m.prove('one file is made', len(f.calls) == 1)
    if len(f.calls) != 1: return
    a, got = f.calls[0]; m.prove('by keyword only', not a)
    if which == 0:
        d = z3.Select(arr, key('delete'))
        m.prove('with the given arguments', got == z3.Store(arr, key('delete'), z3.If(OV.is_absent(d), OV.some(term(TRUE)), d)))
    else: m.prove('a buffer of its own', not got)
    if f.failed(out, r): m.cover('failed'); return
    m.prove('dumped, then flushed', [x[0] for x in f.log] == ['dump', 'flush'])
    if [x[0] for x in f.log] != ['dump', 'flush']: return
    _, a, kw2 = f.log[0]
    m.prove('the object, into the file', len(a) == 2 and m.is_(a[0], obj) and m.is_(a[1], f.file) and not kw2)
    m.prove('the file is flushed', m.is_(f.log[1][1], f.file) and not f.log[1][2]); m.prove('the handle is returned', m.is_(r, f.file))


def opened(m, f, mode, arr, named, pathlike, binary):
    """the ghost open(): by the name of the handle or the given name, in the given mode, with the given arguments"""
    def open_(mm, a, kw):
        kw = dict(kw); f.log.append(('open',)); name = a[0] if a else kw.pop('file', None); md = a[1] if len(a) > 1 else kw.pop('mode', None)
        rest = {'**': kw.pop('**')} if '**' in kw else {}
        f.opened = (md, dict(rest, **kw), name)
        if mm.ctx.choose(2): f.log.append(('raised',)); raise PyRaise(f.exc)
        f.handle = mm.sym('opened', Kind('opened', cons='ref', methods={'read': f.read, 'close': lambda m2, o, a2, k2: NONE, '__enter__': lambda m2, o, a2, k2: o, '__exit__': lambda m2, o, a2, k2: FALSE}))
        return f.handle
    m.overrides[host_rid(open)] = open_


def a_handle(m):
    """a file handle (known by its name) or a name"""
    name = m.sym('fname', K_STR)
    if m.ctx.choose(2): return m.sym('handle', Kind('handle', cons='ref', attrs={'name': lambda mm, t: name})), name
    return name, name


@unit('C23', 'objects are loaded from a file', ['dill.temp:load'], covers=['loaded', 'failed', 'mode r', 'mode rb', 'by default', 'any mode'])
def loaded(m):
    """any handle or name, any keyword arguments: the file of that name is opened, in binary mode, with the given arguments, and what is loaded from it returned"""
    f = Files(m); f.read = lambda mm, o, a, kw: (_ for _ in ()).throw(Unsupported('the file is read')); h, name = a_handle(m)
    k = m.ctx.choose(4); mode = (ABSENT, C('r'), C('rb'), m.sym('mode', K_STR))[k]; m.cover(('by default', 'mode r', 'mode rb', 'any mode')[k])
    kw, arr = given(m, file=ABSENT, mode=mode, name=ABSENT)
    opened(m, f, mode, arr, h, name, True)
    out, r = m.run(TEMP.load, [h], {}, kw)
    m.prove('the file is opened', [x[0] for x in f.log][:1] == ['open'])
    if [x[0] for x in f.log][:1] != ['open']: return
    md, rest, nm = f.opened
    m.prove('by its name', m.eq(nm, name))
    if k < 3: m.prove('in binary mode', md is not None and m.eq(md, C('rb')))
    else: md = m.force(md); m.prove('in binary mode', z3.Or(z3.And(z3.Contains(mode.t, 'b'), zstr(md) == mode.t), z3.And(z3.Not(z3.Contains(mode.t, 'b')), zstr(md) == z3.Concat(mode.t, z3.StringVal('b')))))
    m.prove('with the given arguments', passed(m, [], rest) == z3.Store(arr, key('mode'), OV.absent))
    if f.failed(out, r): m.cover('failed'); return
    m.prove('loaded once', [x[0] for x in f.log] == ['open', 'load'])
    if [x[0] for x in f.log] != ['open', 'load']: return
    _, a, kw2 = f.log[1]; m.prove('from the file', len(a) == 1 and m.is_(a[0], f.handle) and not kw2); m.cover('loaded'); m.prove('the object is returned', m.is_(r, f.loaded))


def a_buffer(m, what='bytes'):
    """a buffer with getvalue(), or the bytes themselves"""
    data = m.sym('data', K_BYTES)
    if m.ctx.choose(2): return m.sym('buffer', Kind('iobuffer', cons='ref', methods={'getvalue': lambda mm, o, a, kw: data})), data
    return data, data


@unit('C23', 'objects are loaded from a buffer', ['dill.temp:loadIO'], covers=['loaded', 'failed'])
def loaded_io(m):
    """any buffer or bytes: the object is loaded from all of its contents, which are not consumed"""
    f = Files(m); b, data = a_buffer(m)
    out, r = m.run(TEMP.loadIO, [b])
    m.prove('a buffer of its own', len(f.calls) == 1 and len(f.calls[0][0]) == 1 and not f.calls[0][1])
    if len(f.calls) != 1 or len(f.calls[0][0]) != 1: return
    m.prove('with all of the contents', m.eq(f.calls[0][0][0], data))
    if f.failed(out, r): m.cover('failed'); return
    m.prove('loaded once', [x[0] for x in f.log] == ['load'])
    if [x[0] for x in f.log] != ['load']: return
    _, a, kw2 = f.log[0]; m.prove('from it', len(a) == 1 and m.is_(a[0], f.file) and not kw2); m.cover('loaded'); m.prove('the object is returned', m.is_(r, f.loaded))


UTF8 = z3.Function('utf8', STR, STR); UTF8D = z3.Function('from_utf8', STR, STR)


def codec_contract(m):
    """encoding and decoding, UTF-8"""
    enc = lambda mm, a, kw: T([SByt(UTF8(zstr(a[0]))), SInt(z3.Length(zstr(a[0])))])
    m.overrides[host_rid(codecs.utf_8_encode)] = enc
    other = z3.Function('another_encoding', STR, STR)
    for fn in (codecs.latin_1_encode, codecs.ascii_encode): m.overrides[host_rid(fn)] = lambda mm, a, kw: T([SByt(other(zstr(a[0]))), SInt(z3.Length(zstr(a[0])))])
    real = m.env.str_method
    def str_method(mm, o, name, args, kw):
        if name == 'encode':
            e = args[0] if args else kw.get('encoding', C('utf-8'))
            ok = isinstance(e, C) and e.v.lower().replace('_', '-') in ('utf-8', 'utf8')
            return SByt((UTF8 if ok else other)(zstr(o)))
        return real(mm, o, name, args, kw)
    m.env.str_method = str_method
    rb = m.env.bytes_decode
    def bytes_decode(mm, o, args):
        if args and not (isinstance(args[0], C) and args[0].v.lower().replace('_', '-') in ('utf-8', 'utf8')): return SStr(z3.Function('decoded_otherwise', STR, STR)(zbyt(o)))
        return SStr(UTF8D(zbyt(o)))
    m.env.bytes_decode = bytes_decode


def zbyt(o):
    return o.t if isinstance(o, SByt) else z3.StringVal(o.v.decode('latin1')) if isinstance(o, C) else V.yv(o.t)


@unit('C23', 'sources are stored', ['dill.temp:dump_source', 'dill.temp:dumpIO_source', 'dill.temp:b'], covers=['file', 'buffer', 'failed', 'an alias', 'its own name', 'no name', 'alias None'])
def sources_stored(m):
    """any object and keyword arguments: its source and a record of the alias, or else its name, if it has one, in UTF-8; flushed; the suffix is always .py"""
    f = Files(m); codec_contract(m); obj = m.sym('obj', ANY); which = m.ctx.choose(2); m.cover(('file', 'buffer')[which])
    k = m.ctx.choose(3); alias = (ABSENT, m.sym('alias', K_STR), NONE)[k]
    kw, arr = given(m, object=ABSENT, alias=alias)
    name = m.sym('its_name', OneOf(K_STR, K_NONE)); text = m.sym('source', K_STR); asked = []
    if m.ctx.choose(2): m.assume(V.is_none(name.t))
    else: m.assume(z3.And(V.is_strv(name.t), z3.Length(V.sv(name.t)) > 0))
    def getname(mm, a, kw):
        mm.prove('the name of the object', len(a) == 1 and mm.is_(a[0], obj) and not kw)
        if mm.ctx.choose(2): f.log.append(('raised',)); raise PyRaise(f.exc)
        return mm.force(name)
    def importable(mm, a, kw):
        asked.append(a); al = a[1] if len(a) > 1 else kw.get('alias', C(''))
        if set(kw) - {'alias'}: raise Unsupported('other arguments of importable')
        mm.prove('the source of the object', mm.is_(a[0], obj))
        mm.prove('under the alias', Or(And(mm.is_(al, NONE), alias is ABSENT or alias is NONE), Or(mm.eq(al, C('')) if alias is ABSENT or alias is NONE else mm.eq(al, alias))))
        if mm.ctx.choose(2): f.log.append(('raised',)); raise PyRaise(f.exc)
        return text
    m.overrides[host_rid(SRC.getname)] = getname; m.overrides[host_rid(SRC.importable)] = importable
    out, r = m.run((TEMP.dump_source, TEMP.dumpIO_source)[which], [obj], {}, kw)
    if f.calls:
        m.prove('one file is made', len(f.calls) == 1); a, got = f.calls[0]; m.prove('by keyword only', not a)
        if which == 0:
            d = z3.Select(arr, key('delete'))
            want = z3.Store(z3.Store(z3.Store(arr, key('alias'), OV.absent), key('delete'), z3.If(OV.is_absent(d), OV.some(term(TRUE)), d)), key('suffix'), OV.some(term(C('.py'))))
            m.prove('with the given arguments, and the suffix .py', got == want)
        else: m.prove('a buffer of its own', not got)
    if f.failed(out, r): m.cover('failed'); return
    m.prove('a file is made', len(f.calls) == 1)
    ws = [x for x in f.log if x[0] == 'write']
    m.prove('written, then flushed', ws and [x[0] for x in f.log][-1] == 'flush' and all(m.is_(x[1], f.file) is True for x in f.log) and {x[0] for x in f.log} == {'write', 'flush'})
    if not ws: return
    if len(ws) != 1: raise Unsupported('written in parts')
    data = m.force(ws[0][2][0]); m.prove('bytes are written', m.pytype(data) is bytes)
    if m.pytype(data) is not bytes: return
    own = lambda n: z3.Concat(text.t, z3.StringVal('\n#NAME: '), n, z3.StringVal('\n'))
    has = given_str(alias)
    if has and m.ctx.branch(z3.Length(alias.t) > 0): m.cover('an alias'); want = [own(alias.t)]
    elif m.ctx.branch(V.is_none(name.t)): m.cover('no name'); want = [z3.Concat(text.t, z3.StringVal(x)) for x in ('\n', '\n\n')] + [text.t]
    else: m.cover('its own name'); want = [own(V.sv(name.t))]
    if alias is NONE: m.cover('alias None')
    m.prove('the source, and the record of the name, in UTF-8', z3.Or(*[zbyt(data) == UTF8(w) for w in want]))
    m.prove('the handle is returned', m.is_(r, f.file))


class Text:
    """a source text: what its last line that is not blank says"""
    def __init__(self, m, s):
        self.m, self.s = m, s
        self.core = z3.Function('without_outer_space', STR, STR)(s); self.n = m.ctx.fresh('nlines', I); self.line = z3.Function('line', I, STR)
        self.w = m.ctx.fresh('nwords', I); self.word = z3.Function('word', I, STR); self.n2 = m.ctx.fresh('nlines_in_all', I); self.line2 = z3.Function('line_in_all', I, STR)
        m.assume([self.n >= 0, self.n2 >= self.n, self.w >= 1, (self.n == 0) == (self.core == z3.StringVal('')), (self.n2 == 0) == (s == z3.StringVal('')), z3.Implies(self.n > 0, z3.Length(self.line(self.n - 1)) > 0)])
        self.blank = self.n == 0
        self.record = z3.And(self.n > 0, self.w >= 2, self.word(0) == z3.StringVal('#NAME:')); self.name = self.word(self.w - 1)
        real = m.env.str_method
        def lst(mm, n, at):
            o = mm.alloc(list); mm.lists[o.addr] = LState([], n, lambda i: SStr(at(i if z3.is_expr(i) else z3.IntVal(i))), None); return o
        def str_method(mm, o, name, args, kw):
            if isinstance(o, SStr) and not args and not kw:
                t = z3.simplify(o.t)
                if t.eq(z3.simplify(s)):
                    if name == 'strip': return SStr(self.core)
                    if name == 'splitlines': return lst(mm, self.n2, self.line2)
                elif t.eq(z3.simplify(self.core)):
                    if name == 'splitlines': return lst(mm, self.n, self.line)
                elif mm.ctx.must(t == self.line(self.n - 1)) and name == 'split': return lst(mm, self.w, self.word)
                elif mm.ctx.must(z3.And(t == self.line(self.n - 1), self.n > 0)) and name == 'strip': return o
                if name in ('strip', 'splitlines', 'split'): raise Unsupported('the text is taken apart in another way')
            return real(mm, o, name, args, kw)
        m.env.str_method = str_method


def executing(m, f, s, ok):
    """exec and eval: any effect on the namespace given, any exception"""
    st = {}; f.value = m.sym('value', ANY); f.eval_exc = m.sym_exc('of_the_name')
    def ex(mm, a, kw):
        f.log.append(('exec',)); mm.prove('executed only if the name is known', ok())
        mm.prove('the whole source is executed', len(a) >= 2 and not kw and mm.pytype(mm.force(a[0])) is str and zstr(a[0]) == s)
        ns = a[1] if len(a) > 1 else None
        mm.prove('in a new namespace', isinstance(ns, O) and mm.pytype(ns) is dict and mm.dmap(ns).base is None and all(isinstance(w[0], C) and str(w[0].v)[:2] == '__' for w in mm.dmap(ns).writes if w[1] is not ABSENT))
        mm.prove('and no other', len(a) < 3 or mm.is_(a[2], ns))
        st['ns'] = ns
        if mm.ctx.choose(2): f.log.append(('raised',)); raise PyRaise(f.exc)
        if isinstance(ns, O): mm.dicts[mm.key(ns, mm.dicts, True)] = DMap(mm.ctx.fresh('namespace', KW), (), K_STR, ANY)
        return NONE
    def ev(mm, a, kw):
        f.log.append(('eval',)); f.asked = a[0]
        mm.prove('asked for in that namespace', len(a) >= 2 and 'ns' in st and mm.is_(a[1], st['ns']) and not kw)
        if mm.ctx.choose(2): f.log.append(('raised',)); raise PyRaise(f.exc)
        return f.value
    m.overrides[host_rid(exec)] = ex; m.overrides[host_rid(eval)] = ev


def judge_source(m, f, tx, alias, out, r):
    has = given_str(alias) and m.ctx.branch(z3.Length(alias.t) > 0)
    if not has and not m.ctx.branch(tx.record):
        m.cover('no record of a name')
        m.prove('an unknown name is an IOError', out == 'raise' and m.isinst_formula(r, OSError)); m.prove('nothing is executed', not [x for x in f.log if x[0] in ('exec', 'eval')]); return
    if f.failed(out, r): m.cover('failed'); return
    m.prove('executed, then looked up', [x[0] for x in f.log if x[0] in ('exec', 'eval')] == ['exec', 'eval'])
    if not hasattr(f, 'asked'): return
    m.cover('the alias' if has else 'the recorded name')
    m.prove('by the alias, or else the recorded name', zstr(m.force(f.asked)) == (alias.t if has else tx.name)); m.prove('its value is returned', m.is_(r, f.value))


def an_alias(m):
    k = m.ctx.choose(3)
    return (ABSENT, NONE, m.sym('alias', K_STR))[k]


def known_name(m, tx, alias):
    return z3.Or(tx.record, z3.Length(alias.t) > 0) if given_str(alias) else tx.record


@unit('C23', 'sources are loaded from a buffer', ['dill.temp:loadIO_source'], covers=['no record of a name', 'failed', 'the alias', 'the recorded name'])
def sources_io(m):
    """any contents: the text is executed in a namespace of its own and the value of the alias, or else of the recorded name, returned; without either it is an IOError"""
    f = Files(m); codec_contract(m); b, data = a_buffer(m); s = UTF8D(data.t); tx = Text(m, s); alias = an_alias(m)
    kw, arr = given(m, buffer=ABSENT, alias=alias); executing(m, f, s, lambda: known_name(m, tx, alias))
    out, r = m.run(TEMP.loadIO_source, [b], {}, kw)
    judge_source(m, f, tx, alias, out, r)


@unit('C23', 'sources are loaded from a file', ['dill.temp:load_source'], covers=['no record of a name', 'failed', 'the alias', 'the recorded name', 'text', 'binary', 'by default'])
def sources_file(m):
    """any handle or name, keyword arguments and mode: the file is opened as given (as UTF-8 unless told otherwise) and its whole text loaded likewise"""
    f = Files(m); codec_contract(m); h, name = a_handle(m); alias = an_alias(m)
    k = m.ctx.choose(3); mode = (ABSENT, C('r'), C('rb'))[k]; binary = k == 2; m.cover(('by default', 'text', 'binary')[k])
    kw, arr = given(m, file=ABSENT, mode=mode, alias=alias); data = m.sym('contents', K_BYTES); text = m.sym('text', K_STR)
    s = UTF8D(data.t) if binary else text.t; tx = Text(m, s); executing(m, f, s, lambda: known_name(m, tx, alias))
    def read(mm, o, a, kw2):
        mm.prove('all of it is read', not a and not kw2); f.log.append(('read',)); return data if binary else text
    f.read = read; opened(m, f, mode, arr, h, name, binary)
    out, r = m.run(TEMP.load_source, [h], {}, kw)
    m.prove('the file is opened', bool(f.log) and f.log[0] == ('open',))
    if not f.log or f.log[0] != ('open',): return
    md, rest, nm = f.opened
    m.prove('by its name', m.eq(nm, name)); m.prove('in the given mode', m.eq(md, C('rb' if binary else 'r')) if md is not None else not binary)
    e = z3.Select(arr, key('encoding')); want = z3.Store(z3.Store(arr, key('mode'), OV.absent), key('alias'), OV.absent)
    if not binary: want = z3.Store(want, key('encoding'), z3.If(OV.is_absent(e), OV.some(term(C('utf-8'))), e))
    m.prove('with the given arguments, and as UTF-8 unless given', passed(m, [], rest) == want)
    if f.log[1:2] == [('raised',)]: m.prove('the failure is passed on', out == 'raise' and m.is_(r, f.exc) and len(f.log) == 2); return
    m.prove('read once', f.log.count(('read',)) == 1)
    judge_source(m, f, tx, alias, out, r)
