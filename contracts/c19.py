from contracts.sess import *
import pickletools

STRINGS = ('UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE')
K_NOSTREAM = ()


def stored_name_spec(m, q, op, arg):
    """specification: the first text argument after the first reference to the import function"""
    if q[0] == 'searching':
        if op in ('import',): q[0] = 'importing'
    elif q[0] == 'importing' and op == 'text': q[0] = 'found'; q.append(arg)


@unit('C19', 'identifying the module', ['dill.session:_identify_module'], seconds=200,
      covers=['found', 'no module', 'cut off', 'cannot be peeked', 'cannot be peeked, named'])
def identify(m):
    """any sequence of opcodes (unbounded), ending normally or cut off anywhere; peeking may fail"""
    q = ['searching']; st = {'peeked': 0, 'end': None}
    main = m.sym('main', ANY) if m.ctx.choose(2) else None
    chunk = m.sym('chunk', K_BYTES); m.assume(z3.Length(chunk.t) >= 256)
    def peek(mm, o, a, kw):
        st['peeked'] += 1
        if mm.ctx.choose(2): st['end'] = 'nopeek'; mm.raise_(NotImplementedError, C('stream is not peekable'))
        return chunk
    other = lambda name: lambda mm, o, a, kw: mm.trace.append(Ev('stream', what=name)) or mm.sym(name, ANY)
    f = m.sym('file', Kind('peekable', cons='ref', methods=dict({n: other(n) for n in ('read', 'readline', 'readinto', 'tell', 'seek', 'close', 'flush')}, peek=peek)))
    K_OP = lambda name: m.sym('opcode', Kind('opcode', cons='ref', attrs={'name': name}))
    def step(mm):
        k = mm.ctx.choose(7)
        if k == 6: st['end'] = 'cut'; mm.raise_(ValueError, C('pickle exhausted before seeing STOP'))
        pos = mm.sym('pos', K_INT)
        if k in (0, 1):
            name, arg, op = ('GLOBAL', 'dill._dill _import_module', 'import') if k == 0 else ('SHORT_BINUNICODE', '_import_module', 'import')
            arg = C(arg); name = C(name)
            if q[0] == 'importing': op = 'text' if k else 'none'
        elif k in (2, 3, 4):
            name = C(STRINGS[k - 2]); arg = mm.sym('text', K_STR); op = 'text'
            mm.assume(z3.Not(z3.SuffixOf(z3.StringVal('_import_module'), arg.t)))
        else:
            name = mm.sym('opname', K_STR)
            for n in STRINGS + ('BINUNICODE8',): mm.assume(name.t != n)
            arg = mm.sym('arg', ANY); op = 'none'
            if mm.branch(mkbool(mm.eq(name, C('GLOBAL')))):
                arg = mm.sym('global', K_STR); mm.assume(z3.Not(z3.SuffixOf(z3.StringVal('_import_module'), arg.t)))
        if st['end'] is None: stored_name_spec(mm, q, op, arg)
        return T([K_OP(name), arg, pos])
    lz = Lazy(step, ghost=lambda mm: tuple(q[:1]))
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(pickletools.genops)] = lambda mm, a, kw: (mm.prove('only the peeked bytes are looked at', mm.is_(a[0], chunk)), lz)[1]
    m.ghost['lasso'] = lz
    out, r = m.run(SESS._identify_module, [f] + ([] if main is None else [main]))
    if 'stream' in [getattr(e, 'kind', None) for e in m.trace]: m.prove('nothing is read', False)
    if q[0] == 'found':
        m.cover('found')
        m.prove("the name is the argument of the first module import", out == 'return' and m.is_(r, q[1]))
        return
    if st['end'] == 'nopeek' and main is not None and not m.branch(mkbool(m.is_(main, NONE))):
        m.cover('cannot be peeked, named'); m.prove('accepted: the caller named the module', out == 'return' and m.is_(r, NONE)); return
    m.cover({'nopeek': 'cannot be peeked', 'cut': 'cut off', None: 'no module'}[st['end']])
    m.prove('anything else is an UnpicklingError', out == 'raise' and m.pytype(r) is D.UnpicklingError)


def stream(m, small=False):
    """a stream at some position; tell and seek may be missing or fail, as may reading"""
    s = dict(pos=m.sym('position', K_INT).t, reads=[], log=[])
    s['start'] = s['pos']
    def failing(mm): mm.raise_((OSError, AttributeError)[0 if small else mm.ctx.choose(2)], C('not supported'))
    s['tells'] = m.ctx.choose(2); s['seeks'] = s['tells'] if small else m.ctx.choose(2)
    def tell(mm, o, a, kw):
        s['log'].append('tell')
        if not s['tells']: failing(mm)
        return mkint(s['pos'])
    def seek(mm, o, a, kw):
        s['log'].append('seek')
        if not s['seeks']: failing(mm)
        wh = a[1] if len(a) > 1 else kw.get('whence', C(0))
        if not (isinstance(wh, C) and wh.v in (0, 1)): raise Unsupported('seek whence')
        s['pos'] = zint(a[0]) if wh.v == 0 else s['pos'] + zint(a[0])
        return mkint(s['pos'])
    def read(what):
        def h(mm, o, a, kw):
            s['log'].append(what)
            if mm.ctx.choose(2): s['failed'] = True; mm.raise_(OSError, C('cannot read'))
            n = mm.sym('n', K_INT); mm.assume(n.t >= 0)
            d = mm.sym('data', K_BYTES); s['reads'].append((what, s['pos'], list(a), d, kw)); s['pos'] = s['pos'] + n.t
            return d
        return h
    meth = {n: read(n) for n in ('read', 'readline')}
    if s['tells'] or small or m.ctx.choose(2): meth['tell'] = tell
    if s['seeks'] or small or m.ctx.choose(2): meth['seek'] = seek
    if small or m.ctx.choose(2): meth['flush'] = lambda mm, o, a, kw: s['log'].append('flush') or NONE
    meth['close'] = lambda mm, o, a, kw: s['log'].append('close') or NONE
    return m.sym('stream', Kind('stream', cons='ref', methods=meth, nota=(SESS._PeekableReader,))), s


@unit('C19', 'identifying from part of the buffer', ['dill.session:_identify_module'], covers=['found', 'cut off', 'cannot be peeked', 'short', 'long'])
def partly(m):
    """a peek may give any number of bytes, fewer than asked for; the stream may or may not seek"""
    f, s = stream(m, small=True)
    peekable = m.ctx.choose(2)
    def peek(mm, o, a, kw):
        if not peekable: mm.raise_(NotImplementedError, C('stream is not peekable'))
        d = mm.sym('peeked', K_BYTES); s['reads'].append(('peek', s['pos'], list(a), d, kw))
        return d
    m.kind(f).methods['peek'] = peek
    m.overrides = dict(m.overrides)
    looked = []; end = m.ctx.choose(2)
    K_OP = lambda name: m.sym('opcode', Kind('opcode', cons='ref', attrs={'name': C(name)}))
    name = m.sym('name', K_STR)
    def step(mm): mm.raise_(ValueError, C('pickle exhausted before seeing STOP'))
    def genops(mm, a, kw):
        got = [r for r in s['reads'] if mm.is_(a[0], r[3]) is True]
        mm.prove('the bytes at the current position are looked at', bool(got) and got[-1][1] == s['start'])
        looked.extend(got)
        return T([T([K_OP('SHORT_BINUNICODE'), C('_import_module'), C(1)]), T([K_OP('SHORT_BINUNICODE'), name, C(2)])]) if end else Lazy(step)
    m.overrides[host_rid(pickletools.genops)] = genops
    out, r = m.run(SESS._identify_module, [f])
    m.prove('the stream position is unchanged', s['pos'] == s['start'])
    m.prove('the stream is not closed', 'close' not in s['log'])
    if not peekable and not looked:
        m.cover('cannot be peeked'); m.prove('refused', out == 'raise' and m.pytype(r) is D.UnpicklingError); return
    m.prove('looked at the bytes once', len(looked) == 1)
    if len(looked) != 1: return
    if end: m.cover('found'); m.prove('the name is the one recorded', out == 'return' and m.is_(r, name))
    else: m.cover('cut off'); m.prove('nothing found is an UnpicklingError', out == 'raise' and m.pytype(r) is D.UnpicklingError)
    if looked[0][0] == 'read': m.cover('long')
    else:
        m.cover('short')
        m.prove('fewer bytes than asked for are used only if the stream cannot seek or read',
                Or(len(looked[0][2]) == 1 and z3.Length(looked[0][3].t) >= zint(looked[0][2][0]), not s['tells'] or not s['seeks'] or 'failed' in s))


@unit('C19', 'peeking', ['dill.session:_PeekableReader.peek'], covers=['peeked', 'refused'])
def peek(m):
    """any stream position, any size; telling, seeking and reading may be unsupported"""
    st, s = stream(m)
    out, o = m.run(C(SESS._PeekableReader), [st])
    m.prove('wraps any stream', out == 'return' and not s['log'])
    if out != 'return': return
    n = m.sym('size', K_INT)
    out, r = m.run(m.getattr(o, 'peek'), [n])
    m.prove('the stream position is unchanged', s['pos'] == s['start'])
    m.prove('the stream is not closed', 'close' not in s['log'])
    if out == 'return':
        m.cover('peeked')
        m.prove('gives the bytes at the current position', len(s['reads']) == 1 and s['reads'][0][0] == 'read' and m.is_(r, s['reads'][0][3]))
        if len(s['reads']) == 1: m.prove('of the size asked for', And(s['reads'][0][1] == s['start'], len(s['reads'][0][2]) == 1 and m.eq(s['reads'][0][2][0], n)))
    else:
        m.cover('refused')
        m.prove('a stream that cannot be peeked is refused as such', m.pytype(r) is NotImplementedError)
        m.prove('only if it cannot seek or read', not s['tells'] or not s['seeks'] or 'failed' in s)


@unit('C19', 'reading through the wrapper', ['dill.session:_PeekableReader'], covers=['read', 'readline', 'tell', 'close'])
def through(m):
    """reads, the position and close are passed through unchanged, failures included"""
    st, s = stream(m)
    out, o = m.run(C(SESS._PeekableReader), [st])
    if out != 'return': return
    what = ('read', 'readline', 'tell', 'close')[m.ctx.choose(4)]
    if what not in m.kind(st).methods: return
    m.cover(what)
    a = [m.sym('size', K_INT)] if what == 'read' else []
    out, r = m.run(m.getattr(o, what), a)
    m.prove('one call of the same method', s['log'] == [what])
    if out == 'raise': m.prove('fails only if the stream does', 'failed' in s or not s['tells']); return
    if what in ('read', 'readline'):
        m.prove('the same bytes are returned', len(s['reads']) == 1 and m.is_(r, s['reads'][0][3]))
        if len(s['reads']) == 1: m.prove('with the same size', And(*[len(s['reads'][0][2]) == len(a)] + [m.eq(x, y) for x, y in zip(s['reads'][0][2], a)]))
    if what == 'tell': m.prove('the same position', m.eq(r, mkint(s['pos'])))


@unit('C19', 'making a stream peekable', ['dill.session:_make_peekable'], covers=['as it is', 'buffered', 'wrapped'])
def make(m):
    """any stream: nothing is read; what is returned can be peeked and reads this very stream"""
    f, which, log, opened, external = load_env(m, stream_only=True)
    st, s = stream(m)
    if m.ctx.choose(2): m.kind(st).methods['peek'] = lambda *a: NONE
    out, r = m.run(SESS._make_peekable, [st])
    m.prove('returns normally', out == 'return')
    if out != 'return': return
    m.prove('nothing is read or moved', not s['log'])
    m.prove('it reads this very stream', m.is_(wrapped(m, log, r), st))
    if m.is_(r, st) is True: m.cover('as it is'); m.prove('which can be peeked', 'peek' in m.kind(st).methods)
    elif m.pytype(r) is SESS._PeekableReader: m.cover('wrapped')
    else: m.cover('buffered'); m.prove('by a buffered reader', issubclass(m.pytype(r), io.BufferedReader))


@unit('C19', 'loading starts where identifying did', ['dill.session:load_module', 'dill.session:load_module_asdict'], max_paths=20000, covers=['load_module', 'load_module_asdict'])
def same_stream(m):
    """the very stream that was identified is the one unpickled, and nothing else is done with it"""
    f, which, log, opened, external = load_env(m)
    unp = m.sym('unpickler', Kind('unpickler', cons='ref', attrs={'_main': m.ghost['main_module']}, methods={
        'load': lambda mm, o, a, kw: external('load', lambda *_: mm.sym('loaded', K_ANYMOD))(mm, a, kw)}))
    used = []
    m.overrides[host_rid(D.Unpickler)] = lambda mm, a, kw: used.append(a[0]) or unp
    m.overrides[host_rid(SESS._restore_modules)] = lambda mm, a, kw: NONE
    if m.ctx.choose(2):
        out, r = m.run(SESS.load_module, [f])
        ids = [e[1][0] for e in log if e[0] == 'identify']
        if not ids: return
        m.cover('load_module')
    else:
        m.overrides[host_rid(SESS.load_module)] = lambda mm, a, kw: used.append(a[0]) or log.append(('load', a, kw)) or NONE
        out, r = m.run(SESS.load_module_asdict, [f])
        ids = [e[1][0] for e in log if e[0] == 'identify']
        if not ids: return
        m.cover('load_module_asdict')
    m.prove('identified once', len(ids) == 1)
    for u in used: m.prove('the stream identified is the one loaded', m.is_(u, ids[0]))
    if [e for e in log if e[0] == 'load']: m.prove('loaded from it', len(used) == 1)
    m.prove('nothing is read in between', not [e for e in log if e[0] in ('read bytes', 'seek')])
