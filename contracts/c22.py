from contracts.common import *
import logging, io, contextlib, codecs, locale

TR = LOG.TraceAdapter


class Log_:
    """the log, and what it is given: records, and nothing else"""
    def __init__(self, m, enabled=None):
        self.m = m; self.records = []
        m.overrides = dict(m.overrides)
        def info(mm, a, kw):
            mm.prove('the message is sent to the log of dill', isinstance(a[0], C) and a[0].v in (LOG.adapter, LOG.logger))
            self.records.append((list(a[1:]), dict(kw)))
            if mm.ctx.choose(2): mm.raise_(RecursionError, C('maximum recursion depth exceeded'))
            return NONE
        m.overrides[host_rid(logging.LoggerAdapter.info)] = info
        m.overrides[host_rid(logging.Logger.info)] = info
        if enabled is not None: 
            m.overrides[host_rid(logging.LoggerAdapter.isEnabledFor)] = lambda mm, a, kw: (mm.prove('asked at the level of the trace', mm.eq(a[1], C(logging.INFO))), enabled)[1]
            m.overrides[host_rid(logging.Logger.isEnabledFor)] = m.overrides[host_rid(logging.LoggerAdapter.isEnabledFor)]


def untouched(m, p, before, what, but=()):
    now = m.attrs[p.addr]
    for n in before:
        if n not in but: m.prove('%s: nothing else of the pickler is changed' % what, n in now and (now[n] is before[n] or m.is_(now[n], before[n])))
    m.prove('%s: nothing else of the pickler is changed' % what, set(now) <= set(before) | set(but))


@unit('C22', 'a dump begins', ['dill.logger:TraceAdapter.trace_setup'], covers=['traced', 'not traced', 'another pickler'])
def setup(m):
    """every pickler, fresh or used before: the trace of a dump begins at depth one with nothing open, or is off"""
    which, p = choose_pickler(m)
    if m.ctx.choose(2): m.attrs[p.addr].update(_trace_depth=m.sym('depth', ANY), _size_stack=m.sym('stack', ANY))
    on = m.sym('enabled', K_BOOL); lg = Log_(m, on); before = dict(m.attrs[p.addr])
    out, r = m.run(TR.trace_setup, [C(LOG.adapter), p])
    m.prove('returns', out == 'return'); m.prove('nothing is logged', not lg.records); m.prove('nothing is written', not events(m))
    now = m.attrs[p.addr]
    if which: m.cover('another pickler'); untouched(m, p, before, 'another pickler'); return
    untouched(m, p, before, 'setup', ('_trace_depth', '_size_stack'))
    if m.branch(on):
        m.cover('traced')
        m.prove('the first line is at depth one', '_trace_depth' in now and And(m.eq(now['_trace_depth'], C(1)), m.pytype(m.force(now['_trace_depth'])) is int))
        st = now.get('_size_stack'); m.prove('nothing is open', isinstance(st, O) and m.pytype(st) is list and m.lstate(st).n is None and not m.lstate(st).items and st is not before.get('_size_stack'))
    else:
        m.cover('not traced'); m.prove('the dump is not traced', '_trace_depth' in now and m.is_(now['_trace_depth'], NONE))


@unit('C22', 'the dump sets up its trace', ['dill._dill:Pickler.dump'], covers=['dumped', 'failed'])
def dump(m):
    """one set-up before anything is written, then the ordinary dump; what that raises is raised"""
    p = mk_pickler(m, m.ctx.choose(2)); obj = m.sym('obj', ANY); log = []
    m.overrides = dict(m.overrides)
    m.overrides[host_rid(TR.trace_setup)] = lambda mm, a, kw: (log.append(('setup', a[1])), NONE)[1]
    exc = m.sym_exc('boom', isa=(Exception,))
    def stock(mm, a, kw):
        log.append(('dump', a[0], a[1]))
        if mm.ctx.choose(2): log.append('raised'); raise PyRaise(exc)
        return NONE
    m.overrides[host_rid(pickle._Pickler.dump)] = stock
    out, r = m.run(D.Pickler.dump, [p, obj])
    m.prove('set up once, then dumped once', len([x for x in log if x != 'raised']) == 2 and log[0][0] == 'setup' and log[0][1] is p and log[1][0] == 'dump' and log[1][1] is p and m.is_(log[1][2], obj))
    if 'raised' in log: m.cover('failed'); m.prove('the failure is passed on', out == 'raise' and m.is_(r, exc))
    else: m.cover('dumped'); m.prove('returns', out == 'return' and m.is_(r, NONE))


def arithmetic(m):
    """adding and subtracting what tell returned: numbers as usual (also of a subclass of int), other built-in values raise TypeError, any other object does anything"""
    number = lambda mm, p, x: p in (int, bool) or p is None and mm.branch(mkbool(mm.isinst_formula(x, int)))
    def hook(mm, op, a, b):
        if op not in ('Add', 'Sub'): return None
        pa, pb = mm.pytype(a), mm.pytype(b)
        if pa in (int, bool) and pb in (int, bool) or pa is str and pb is str: return None
        if pa is not None and pb is not None: mm.raise_(TypeError, C('unsupported operand'))
        if number(mm, pa, a) and number(mm, pb, b): return mm.sym('number', K_INT)
        if mm.ctx.choose(2): raise PyRaise(mm.sym_exc('arithmetic', isa=(Exception,)))
        return mm.sym('sum', ANY)
    m.env.binop_hook = hook


FRAMES = ('none', 'buffer', 'builder', 'no framer')


def one_call(m, closing):
    """trace() with any pickler, any stream and any stack of open lines"""
    e = type('E', (), {})()
    e.lg = Log_(m); e.closing = closing; arithmetic(m)
    # the stream: tell may be missing, raise anything, return anything
    e.k = ('works', 'raises', 'missing', 'anything')[m.ctx.choose(4)]
    e.pos = m.sym('position', K_INT) if e.k == 'works' else m.sym('position', ANY) if e.k == 'anything' else None
    def tell(mm, o, a, kw):
        if e.k == 'raises': raise PyRaise(mm.sym_exc('tell', isa=(Exception,)))
        return e.pos
    e.touched = []
    no = lambda n: lambda mm, o, a, kw: (e.touched.append(n), mm.sym(n, ANY))[1]
    meths = {n: no(n) for n in ('write', 'flush', 'seek', 'read', 'truncate', 'close', 'writelines')}
    if e.k != 'missing': meths['tell'] = tell
    stream = m.sym('stream', Kind('stream', cons='ref', methods=meths, attrs={'tell': lambda mm, t: ABSENT} if e.k == 'missing' else {}))
    e.fr = FRAMES[m.ctx.choose(4)]
    e.inframe = m.sym('in_frame', K_INT)
    if e.fr == 'none': frame = NONE; m.assume(e.inframe.t == 0)
    elif e.fr == 'buffer': frame = m.sym('frame', Kind('frame', cons='ref', length=lambda mm, o: mm.raise_(TypeError, C('no len')), methods=dict({n: no('frame.' + n) for n in ('write', 'getbuffer', 'getvalue', 'seek')}, tell=lambda mm, o, a, kw: e.inframe)))
    else: frame = m.sym('frame', Kind('builder', cons='ref', attrs={'tell': lambda mm, t: ABSENT}, length=lambda mm, o: e.inframe)); m.assume(e.inframe.t >= 0)
    attrs = {'_file': stream}
    if e.fr != 'no framer': attrs['framer'] = m.sym('framer', Kind('framer', cons='ref', attrs={'current_frame': lambda mm, t: frame}))
    e.depth = m.sym('depth', K_INT)
    # the stack of open lines: any
    e.stack = []; e.start = m.sym('start', OneOf(K_INT, K_NONE))
    def append(mm, o, a, kw): e.stack.append(('push', a[0])); return NONE
    def pop(mm, o, a, kw): mm.prove('only the innermost is closed', not a); e.stack.append(('pop', None)); return mm.force(e.start)
    attrs['_size_stack'] = m.sym('stack', Kind('stack', pytype=list, cons='ref', methods={'append': append, 'pop': pop}))
    attrs['_trace_depth'] = e.depth
    e.p = mk_pickler(m, m.ctx.choose(2), **attrs)
    e.msg = m.sym('msg', K_STR); m.assume(z3.PrefixOf(z3.StringVal('#'), e.msg.t) == z3.BoolVal(closing))
    e.args = [m.sym('arg', ANY)] if not closing or m.ctx.choose(2) else []
    e.before = dict(m.attrs[e.p.addr])
    e.out, e.r = m.run(TR.trace, [C(LOG.adapter), e.p, e.msg] + e.args)
    return e


def is_int(m, v):
    v = m.force(v)
    return m.pytype(v) in (int, bool)


def judge(m, e):
    m.prove('never raises', e.out == 'return')
    if e.out != 'return': return
    m.prove('the stream is not touched', not e.touched and not events(m))
    untouched(m, e.p, e.before, 'trace', ('_trace_depth',))
    now = m.attrs[e.p.addr]
    m.prove('one message', len(e.lg.records) == 1)
    if len(e.lg.records) != 1: return
    a, kw = e.lg.records[0]
    m.prove('the message is the given one', len(a) == 1 + len(e.args) and m.is_(a[0], e.msg) and And(*[m.is_(x, y) for x, y in zip(a[1:], e.args)]))
    m.prove('nothing but the extra fields is added', set(kw) == {'extra'})
    x = {k: v for k, v in ((k, m.dget(kw['extra'], C(k))) for k in ('depth', 'size')) if v is not ABSENT}
    d = zint(e.depth)
    known = e.k == 'works'
    if not e.closing:
        m.cover('opened'); m.cover('position known' if known else 'position unknown')
        m.prove('shown at the depth of the dump', 'depth' in x and m.eq(x['depth'], e.depth))
        m.prove('what it contains is one deeper', m.eq(now['_trace_depth'], SInt(d + 1)))
        m.prove('one line is opened', [s[0] for s in e.stack] == ['push'])
        m.prove('no size yet', 'size' not in x or m.is_(x['size'], NONE))
        if known and len(e.stack) == 1: 
            v = m.force(e.stack[0][1]); m.prove('with the position of the stream', m.pytype(v) is int and zint(v) == zint(e.pos) + (zint(e.inframe) if e.fr != 'no framer' else 0))
    else:
        m.cover('closed')
        m.prove('shown at the depth it was opened at', And('depth' in x and m.eq(x['depth'], SInt(d - 1)), m.eq(now['_trace_depth'], SInt(d - 1))))
        m.prove('one line is closed', [s[0] for s in e.stack] == ['pop'])
        st = m.force(e.start)
        if known and m.pytype(st) is int:
            m.cover('size'); m.prove('the size is what was written in between', 'size' in x and m.eq(x['size'], SInt(zint(e.pos) + (zint(e.inframe) if e.fr != 'no framer' else 0) - zint(st))))
        elif m.pytype(st) is type(None) or e.k in ('raises', 'missing'):
            m.cover('no size'); m.prove('no size without both positions', 'size' not in x or m.is_(x['size'], NONE))


@unit('C22', 'a line is opened', ['dill.logger:TraceAdapter.trace'], covers=['opened', 'position known', 'position unknown'], max_paths=4000)
def opened(m):
    """for every stream: one record at the depth of the dump, what follows is one deeper, the position is remembered if the stream can tell it"""
    judge(m, one_call(m, False))


@unit('C22', 'a line is closed', ['dill.logger:TraceAdapter.trace'], covers=['closed', 'size', 'no size'], max_paths=4000)
def closed(m):
    """for every stream: one record at the depth of the line it closes, with the number of bytes written in between"""
    judge(m, one_call(m, True))


@unit('C22', 'not traced', ['dill.logger:TraceAdapter.trace'], covers=['off', 'another pickler'])
def off(m):
    """tracing off: no effect at all; picklers without a trace: one plain message"""
    lg = Log_(m); k = m.ctx.choose(2)
    p = mk_pickler(m, m.ctx.choose(2), **({'_trace_depth': NONE} if k == 0 else {})) if k == 0 or m.ctx.choose(2) else mk_pickler(m, 2)
    before = dict(m.attrs[p.addr]); msg = m.sym('msg', K_STR); arg = m.sym('arg', ANY)
    out, r = m.run(TR.trace, [C(LOG.adapter), p, msg, arg])
    m.prove('never raises', out == 'return'); m.prove('nothing is written', not events(m)); untouched(m, p, before, 'not traced')
    if k == 0: m.cover('off'); m.prove('nothing is logged', not lg.records)
    else:
        m.cover('another pickler')
        m.prove('the message alone is logged', len(lg.records) == 1 and len(lg.records[0][0]) == 2 and not lg.records[0][1] and And(m.is_(lg.records[0][0][0], msg), m.is_(lg.records[0][0][1], arg)))


class Logger_:
    """the logger: its own level, its effective level, whether the standard handler is among its handlers, and handlers added; files opened and closed"""
    def __init__(self, m):
        self.m = m; m.overrides = dict(m.overrides)
        self.level = self.level0 = m.sym('level', K_INT); self.effective = m.sym('effective', K_INT)
        self.std = self.std0 = m.ctx.fresh('std', B)         # is the standard handler attached
        self.mine = []; self.opened = {}; self.closed = []; self.foreign = []; self.formatters = []
        lg = (LOG.logger, LOG.adapter)
        def own(a, what): m.prove('%s: the logger of dill' % what, isinstance(a[0], C) and any(a[0].v is x for x in lg))
        key = m.key(C(LOG.logger), m.attrs, True)
        def contains(mm, o, x): return self.std if mm.is_(x, C(LOG.stderr_handler)) is True else z3.BoolVal(True) if any(x is h for h in self.mine) else mm.ctx.fresh('has', B)
        self.handlers = m.sym('handlers', Kind('handlers', pytype=list, cons='ref', contains=contains))
        m.attrs[key] = {'handlers': self.handlers, 'level': self.level}
        self.key = key
        def setlevel(mm, a, kw):
            own(a, 'level'); self.level = a[1]; mm.attrs[key]['level'] = a[1]; return NONE
        def add(mm, a, kw):
            own(a, 'handler'); h = a[1]
            if isinstance(h, C) and h.v is LOG.stderr_handler: self.std = z3.BoolVal(True)
            elif any(h is x for x in self.mine): pass
            elif any(h is x for x in self.opened.values()) or any(h is x for x in self.streams): self.mine.append(h)
            else: self.foreign.append(h)
            return NONE
        def remove(mm, a, kw):
            own(a, 'handler'); h = a[1]
            if isinstance(h, C) and h.v is LOG.stderr_handler: self.std = z3.BoolVal(False)
            elif any(h is x for x in self.mine): self.mine = [x for x in self.mine if x is not h]
            elif not any(h is x for x in self.opened.values()) and not any(h is x for x in self.streams): self.foreign.append(h)
            return NONE
        self.streams = []; self.files = []
        def close(mm, o, a, kw): self.closed.append(o); return NONE
        def K_H(name): return Kind(name, cons='ref', methods={'close': close, 'flush': lambda mm, o, a, kw: NONE, 'setFormatter': lambda mm, o, a, kw: (self.formatters.append((o, a[0])), NONE)[1], 'setLevel': lambda mm, o, a, kw: NONE}, attrs={'stream': ANY})
        def stream_handler(mm, a, kw):
            h = mm.sym('stream_handler', K_H('stream_handler'), old=False); self.streams.append(h); self.files.append(('stream', a[0] if a else kw.get('stream', NONE))); return h
        self.fails = False
        def file_handler(mm, a, kw):
            if mm.ctx.choose(2): self.fails = True; raise PyRaise(mm.sym_exc('open', isa=(Exception,)))
            h = mm.sym('file_handler', K_H('file_handler'), old=False); self.opened[len(self.opened)] = h
            self.files.append(('file', a[0], a[1] if len(a) > 1 else kw.get('mode', C('a')))); return h
        for fn, f in ((logging.Logger.setLevel, setlevel), (logging.LoggerAdapter.setLevel, setlevel), (logging.Logger.addHandler, add), (logging.Logger.removeHandler, remove),
                      (logging.Logger.getEffectiveLevel, lambda mm, a, kw: self.effective), (logging.LoggerAdapter.getEffectiveLevel, lambda mm, a, kw: self.effective),
                      (logging.StreamHandler, stream_handler), (logging.FileHandler, file_handler),
                      (LOG.TraceFormatter, lambda mm, a, kw: mm.sym('formatter', ANYREF)),
                      (logging.Handler.setFormatter, lambda mm, a, kw: (self.formatters.append((a[0], a[1])), NONE)[1]),
                      (logging.StreamHandler.flush, lambda mm, a, kw: NONE), (logging.Handler.flush, lambda mm, a, kw: NONE),
                      (logging.Handler.close, lambda mm, a, kw: (self.closed.append(a[0]), NONE)[1]), (logging.StreamHandler.close, lambda mm, a, kw: (self.closed.append(a[0]), NONE)[1]),
                      (logging.Logger.isEnabledFor, lambda mm, a, kw: mkbool(mm.ctx.fresh('enabled', B)))):
            m.overrides[host_rid(fn)] = f
    def same(self, what):
        m = self.m
        m.prove('%s: the level is the one before' % what, m.eq(self.level, self.level0))
        m.prove('%s: the standard handler is attached exactly as before' % what, self.std == self.std0)
        m.prove('%s: no other handler is attached or removed' % what, not self.mine and not self.foreign)


KINDS = ('nothing', 'stream', 'name')


@unit('C22', 'the trace context', ['dill.logger:TraceManager.__init__', 'dill.logger:TraceManager.__enter__', 'dill.logger:TraceManager.__exit__', 'dill.logger:TraceAdapter.addHandler', 'dill.logger:TraceAdapter.removeHandler'],
      covers=['nothing', 'stream', 'name', 'cannot be opened', 'left by an exception'])
def context(m):
    """whatever the level, the handlers and the body: inside, tracing is on and goes to the given place; outside, everything is as before"""
    L = Logger_(m); k = KINDS[m.ctx.choose(3)]; mode = m.sym('mode', K_STR)
    if k == 'nothing': f = NONE
    elif k == 'stream': f = m.sym('stream', Kind('stream', cons='ref', attrs={'write': ANYREF}, open=True))
    else: f = m.force(m.sym('name', OneOf(K_STR, Kind('path', isa=(os.PathLike,), nota=(str, int), cons='ref', attrs={'write': lambda mm, t: ABSENT}))))
    out, mgr = m.run(C(LOG.TraceManager), [f, mode]); m.prove('made', out == 'return')
    if out != 'return': return
    L.same('before entering')
    out, log = m.run(m.getattr(mgr, '__enter__'), [])
    if L.fails:
        m.cover('cannot be opened'); m.prove('the failure is passed on', out == 'raise' and k == 'name'); L.same('cannot be opened'); m.prove('nothing is left open', not L.opened); return
    m.cover(k); m.prove('entered', out == 'return')
    if out != 'return': return
    m.prove('tracing is on', m.eq(L.level, C(logging.INFO)))
    said = []
    for fn in (logging.LoggerAdapter.info, logging.Logger.info): m.overrides[host_rid(fn)] = lambda mm, a, kw: (said.append((a, kw)), NONE)[1]
    x, y = m.sym('said', K_STR), m.sym('arg', ANY)
    out, _ = m.run(log, [x, y])
    m.prove('the function given writes to the log', out == 'return' and len(said) == 1 and len(said[0][0]) == 3 and not said[0][1] and And(m.is_(said[0][0][1], x), m.is_(said[0][0][2], y)))
    if k == 'nothing':
        m.prove('the handlers are as they were', And(L.std == L.std0, not L.mine and not L.foreign))
    else:
        m.prove('only the given place is added', And(z3.Not(L.std), len(L.mine) == 1 and not L.foreign and len(L.files) == 1))
        if len(L.files) != 1 or len(L.mine) != 1: return
        m.prove('it is the given place', (L.files[0][0] == 'stream') == (k == 'stream') and And(m.is_(L.files[0][1], f), m.eq(L.files[0][2], mode) if k == 'name' else True))
        m.prove('with the format of traces', any(h is L.mine[0] for h, _ in L.formatters))
    # the body: any; contexts in it are closed when it ends, the level may be another
    if m.ctx.choose(2): m.overrides[host_rid(logging.Logger.setLevel)](m, [C(LOG.logger), m.sym('level_in_the_body', K_INT)], {})
    exc = [NONE] * 3
    if m.ctx.choose(2): exc = [m.sym('exc_type', ANYREF), m.sym_exc('exc', isa=(BaseException,)), m.sym('traceback', ANYREF)]; m.cover('left by an exception')
    out, r = m.run(m.getattr(mgr, '__exit__'), exc)
    m.prove('left', out == 'return')
    if out != 'return': return
    m.prove('an exception is not swallowed', z3.Not(tobool(m, r)))
    L.same('after')
    m.prove('exactly the file it opened is closed', len(L.closed) == len(L.opened) and all(any(h is x for x in L.closed) for h in L.opened.values()))


def tobool(m, v):
    t = m.truth(v); return t if not isinstance(t, bool) else z3.BoolVal(t)


@unit('C22', 'switching', ['dill.logger:trace'], covers=['on', 'off', 'a context'])
def switching(m):
    """a boolean switches the level; anything else gives a context and changes nothing"""
    L = Logger_(m); k = m.ctx.choose(3)
    if k < 2:
        out, r = m.run(LOG.trace, [C(bool(k))]); m.cover('on' if k else 'off')
        m.prove('returns None', out == 'return' and m.is_(r, NONE))
        m.prove('the level', m.eq(L.level, C(logging.INFO if k else logging.WARNING)))
        m.prove('the handlers are as they were', And(L.std == L.std0, not L.mine and not L.foreign)); return
    m.cover('a context')
    arg = m.sym('arg', OneOf(K_NONE, K_STR, Kind('file', cons='ref', open=True, pytype=io.StringIO)))
    arg = m.force(arg); kw = {}
    mode = C('a')
    if m.ctx.choose(2): mode = kw['mode'] = m.sym('mode', K_STR)
    rp = m.repr_(arg)
    m.assume(z3.And(zstr(rp) != 'True', zstr(rp) != 'False'))
    made = []
    m.overrides[host_rid(LOG.TraceManager)] = lambda mm, a, k2: (made.append((dict(zip(('file', 'mode'), a), **k2))), mm.sym('manager', ANYREF))[1]
    out, r = m.run(LOG.trace, [arg], kw)
    m.prove('a context', out == 'return' and len(made) == 1 and set(made[0]) == {'file', 'mode'} and And(m.is_(made[0]['file'], arg), m.eq(made[0]['mode'], mode)))
    L.same('a context')


UNITS_ = ('', 'Ki', 'Mi', 'Gi', 'Ti', 'Pi')


@unit('C22', 'a line as shown', ['dill.logger:TraceFormatter.format'], covers=['opening', 'closing', 'not of a trace', 'sized', 'without size'], max_paths=4000)
def shown(m):
    """every depth, every size below 2**60: the tree as deep as the depth, the size in the largest unit that fits"""
    rec = m.alloc(logging.LogRecord); kind = ('opening', 'closing', 'not of a trace')[m.ctx.choose(3)]
    msg = m.sym('msg', K_STR); at = {'msg': msg, 'args': m.sym('args', ANY)}
    utf8 = m.sym('is_utf8', K_BOOL); self_ = m.alloc(LOG.TraceFormatter); m.attrs[self_.addr] = {'is_utf8': utf8}
    depth = m.sym('depth', K_INT)
    if kind != 'not of a trace':
        at['depth'] = depth; m.assume([depth.t >= 1, z3.PrefixOf(z3.StringVal('#'), msg.t) == (kind == 'closing')])
    bits = None
    if kind == 'closing':
        bits = m.ctx.choose(61)
        size = m.sym('size', K_INT)
        m.assume(And(size.t >= (1 << (bits - 1)), size.t < (1 << bits)) if bits else size.t <= 0)
        at['size'] = size
        m.ghost['bit_length'] = lambda mm, o: C(bits) if mm.is_(o, size) is True else mm.raise_(AssertionError)
    elif m.ctx.choose(2): at['size'] = NONE
    m.attrs[rec.addr] = dict(at); m.overrides = dict(m.overrides)
    view = m.new_dict(); final = []
    m.overrides[host_rid(vars)] = lambda mm, a, kw: (mm.prove('the record is completed', a[0] is rec), view)[1]
    res = m.sym('text', K_STR)
    m.overrides[host_rid(logging.Formatter.format)] = lambda mm, a, kw: (final.append((a[-1], {k: mm.dget(view, C(k)) for k in ('prefix', 'suffix')})), res)[1]
    out, r = m.run(LOG.TraceFormatter.format, [self_, rec])
    m.prove('formatted', out == 'return' and len(final) == 1 and final[0][0] is rec and m.is_(r, res)); m.cover(kind)
    if out != 'return' or len(final) != 1: return
    f = final[0][1]
    m.prove('the record itself is not changed otherwise', set(m.attrs[rec.addr]) <= set(at) | {'prefix', 'suffix'} and all(m.attrs[rec.addr][n] is at[n] for n in at))
    if f['prefix'] is ABSENT or f['suffix'] is ABSENT: m.prove('both ends are set', False); return
    rep = lambda n: m.env.str_repeat(m, C('│'), SInt(n))
    if kind == 'not of a trace': m.prove('no tree', m.eq(f['prefix'], C('')))
    elif m.branch(utf8):
        if kind == 'closing': want = m.concat_strs([rep(depth.t - 1), C('└ ')])
        elif m.branch(mkbool(depth.t == 1)): want = C('┬ ')
        else: want = m.concat_strs([rep(depth.t - 2), C('├┬ ')])
        m.prove('the tree is as deep as the line', m.eq(f['prefix'], want))
    else: m.prove('the tree ends as in ASCII', z3.SuffixOf(z3.StringVal('- '), zstr(f['prefix'])))
    if not bits: m.cover('without size'); m.prove('no size', m.eq(f['suffix'], C(''))); return
    m.cover('sized'); k = min((bits - 1) // 10, 5)
    want = m.concat_strs([C(' ['), m.str_(SInt(size.t / (1 << (10 * k)))), C(' ' + UNITS_[k] + 'B]')])
    m.prove('the size in the largest unit that fits', m.eq(f['suffix'], want))


# ------------------------------------------------------------------------------- every line opened is closed
class Unclear(Exception): pass


class Balance:
    """the lines open at every point of a function, over all its paths: conditions are arbitrary (but a local name or a dill-ness test
    keeps its value until it is assigned), loops run any number of times, calls of functions that trace are balanced by their own obligation"""
    def __init__(self, m, tree):
        self.m = m; self.fns = {}; self.stack = []
        self.parents = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n): self.parents[c] = n
        self.all = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
        for f in self.all:
            if self.traces(f): self.fns.setdefault(f.name, []).append(f)
        # a function that is only called by name is a helper: it is judged where it is called
        called = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.fns: called.setdefault(n.id, []).append(n)
        grow = True
        self.callers = lambda f: [h for h in self.all if h is not f and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f.name for c in self.own(h))]
        self.helpers = set()
        for name, fs in self.fns.items():
            f = fs[0]
            deco = [d for d in f.decorator_list if 'contextmanager' not in ast.dump(d)]
            used = called.get(name, [])
            if len(fs) == 1 and not deco and used and all(isinstance(self.parents.get(u), ast.Call) and self.parents[u].func is u for u in used) and not isinstance(self.parents.get(f), ast.ClassDef): self.helpers.add(name)

    def own(self, f):
        """the nodes of f that are not in functions within it"""
        out = []; todo = list(f.body)
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): continue
            out.append(n); todo = list(ast.iter_child_nodes(n)) + todo
        return out

    @staticmethod
    def is_trace(c): return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'trace' and isinstance(c.func.value, ast.Name) and len(c.args) >= 2

    def traces(self, f): return any(self.is_trace(c) for c in self.own(f))

    def entries(self): return [(n, f) for n, fs in sorted(self.fns.items()) if n not in self.helpers for f in fs]

    def closing(self, x):
        """does the message begin with '#'"""
        if isinstance(x, ast.Constant) and isinstance(x.value, str): return x.value.startswith('#')
        if isinstance(x, ast.JoinedStr) and x.values: return self.closing(x.values[0])
        if isinstance(x, ast.BinOp): return self.closing(x.left)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format': return self.closing(x.func.value)
        if isinstance(x, ast.IfExp):
            a, b = self.closing(x.body), self.closing(x.orelse)
            if a == b: return a
        raise Unclear('which kind of line: %s' % ast.unparse(x))

    # states: frozenset of (open lines, remembered conditions, what is pending)
    def expr(self, e, S):
        """the effect of evaluating an expression"""
        calls = [c for c in ast.walk(e) if isinstance(c, ast.Call) and (self.is_trace(c) or isinstance(c.func, ast.Name) and c.func.id in self.helpers)] if e is not None else []
        for n in ast.walk(e) if e is not None else ():
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)) and any(c in calls for c in ast.walk(n) if c is not n) :
                raise Unclear('a line within ' + type(n).__name__)
        calls.sort(key=lambda c: (c.end_lineno, c.end_col_offset))
        for c in calls:
            if self.is_trace(c):
                close = self.closing(c.args[1]); T_ = set()
                for st, cd, pd in S:
                    if close:
                        if not st: self.bad.append('closes nothing: %s' % ast.unparse(c)); continue
                        T_.add((st[:-1], cd, pd))
                    else: T_.add((st + (c.lineno,), cd, pd))
                S = frozenset(T_)
            else: S = self.inline(c.func.id, S, None)
        return S

    def inline(self, name, S, body):
        if name in self.stack: raise Unclear('recursive helper ' + name)
        f = self.fns[name][0]; self.stack.append(name); self.yields.append(body)
        try:
            T_ = set()
            for st, cd, pd in S:
                o = self.block(f.body, frozenset([(st, frozenset(), None)]))
                for k in ('next', 'return'):
                    for s2, _, p2 in o.get(k, ()): T_.add((s2, cd if body is None else frozenset(), p2 or pd))
        finally: self.stack.pop(); self.yields.pop()
        return frozenset(T_)

    @staticmethod
    def names(t): return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def forget(self, S, names):
        if not names: return S
        return frozenset((st, frozenset(c for c in cd if not (c[2] & names)), pd) for st, cd, pd in S)

    def split(self, test, S):
        """the states in which a condition holds, and those in which it does not"""
        S = self.expr(test, S)
        neg = False; t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): neg = not neg; t = t.operand
        if isinstance(t, ast.Constant):
            v = bool(t.value) != neg
            return (S, frozenset()) if v else (frozenset(), S)
        stable = isinstance(t, ast.Name) or isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'is_dill' and all(isinstance(a, ast.Name) for a in t.args)
        if not stable: return S, S
        key = ast.unparse(t); nm = frozenset(self.names(t)); yes, no = set(), set()
        for st, cd, pd in S:
            known = [c[1] for c in cd if c[0] == key]
            for v in (True, False):
                if known and known[0] != v: continue
                (yes if v != neg else no).add((st, cd | {(key, v, nm)}, pd))
        return frozenset(yes), frozenset(no)

    def block(self, stmts, S):
        out = {'next': frozenset(S)}
        for s in stmts:
            S = out.pop('next', frozenset())
            if not S: break
            o = self.stmt(s, S)
            for k, v in o.items(): out[k] = out.get(k, frozenset()) | v
        out.setdefault('next', frozenset())
        return out

    @staticmethod
    def merge(*os):
        out = {}
        for o in os:
            for k, v in o.items(): out[k] = out.get(k, frozenset()) | v
        return out

    def may_trace(self, stmts):
        """calls that may open lines and then raise"""
        for s in stmts:
            for c in ast.walk(s):
                if isinstance(c, ast.Call):
                    t = ast.unparse(c.func)
                    if 'save' in t or 'pickler' in t.lower() or isinstance(c.func, ast.Name) and c.func.id in self.fns: return True
        return False

    def stmt(self, s, S):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return {'next': self.forget(S, {s.name})}
        if isinstance(s, (ast.Import, ast.ImportFrom)): return {'next': self.forget(S, {(a.asname or a.name).split('.')[0] for a in s.names})}
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Delete)): return {'next': S}
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield):
                if not self.yields or self.yields[-1] is None: raise Unclear('a generator')
                body = self.yields[-1]; self.yields[-1] = None
                try: o = self.block(body, frozenset((st, frozenset(), pd) for st, cd, pd in S))
                finally: self.yields[-1] = body
                return {'next': frozenset((st, cd, pd or (None if k == 'next' else k)) for k, v in o.items() if k != 'raise' for st, cd, pd in v), 'raise': o.get('raise', frozenset())}
            T_ = self.expr(s.value, S)
            return {'next': T_} if self.is_trace(s.value) else {'next': T_, 'raise': S}
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            T_ = self.expr(s.value, S) if s.value is not None else S
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            return {'next': self.forget(T_, {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}), 'raise': S}
        if isinstance(s, ast.Return): return {'return': self.expr(s.value, S) if s.value is not None else S, 'raise': S}
        if isinstance(s, ast.Raise): return {'raise': S}
        if isinstance(s, ast.Assert): return {'next': S, 'raise': S}
        if isinstance(s, ast.Break): return {'break': S}
        if isinstance(s, ast.Continue): return {'continue': S}
        if isinstance(s, ast.If):
            a, b = self.split(s.test, S)
            return self.merge(self.block(s.body, a), self.block(s.orelse, b), {'raise': S})
        if isinstance(s, (ast.For, ast.While)):
            T_ = self.expr(s.iter, S) if isinstance(s, ast.For) else S
            assigned = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            out = {'raise': S}; done = set()
            for st, cd, pd in self.forget(T_, assigned):
                one = frozenset([(st, cd, pd)])
                if isinstance(s, ast.While): one, leave = self.split(s.test, one)
                o = self.block(s.body, one)
                for k in ('next', 'continue'):
                    for s2, c2, p2 in o.get(k, ()):
                        if s2 != st: self.bad.append('a round of the loop of line %d opens and closes different numbers of lines' % s.lineno)
                base = frozenset([(st, frozenset() if assigned else cd, pd)])
                e = self.block(s.orelse, base)
                out = self.merge(out, e, {'next': self.forget(o.get('break', frozenset()), assigned), 'return': o.get('return', frozenset()), 'raise': o.get('raise', frozenset())})
            return out
        if isinstance(s, ast.With):
            body = s.body; T_ = S
            for i, it in enumerate(s.items):
                c = it.context_expr
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in self.helpers:
                    if len(s.items) != 1: raise Unclear('several contexts')
                    R = self.inline(c.func.id, T_, s.body); out = {'raise': S}
                    for st, cd, pd in R:
                        k = pd or 'next'; out[k] = out.get(k, frozenset()) | {(st, cd, None)}
                    return out
                T_ = self.expr(c, T_)
            o = self.block(body, T_)
            # what a context may swallow
            if o.get('raise') and any('suppress' in ast.unparse(i.context_expr) for i in s.items):
                if self.may_trace(s.body): raise Unclear('failures within suppress')
                o['next'] = o.get('next', frozenset()) | o['raise']
            return self.merge(o, {'raise': S})
        if isinstance(s, ast.Try):
            o = self.block(s.body, S); R = o.pop('raise', frozenset()); outs = []
            if s.orelse: nx = o.pop('next', frozenset()); outs.append(self.block(s.orelse, nx))
            for h in s.handlers:
                if not (h.body and isinstance(h.body[-1], ast.Raise)) and self.may_trace(s.body): raise Unclear('failures of saving are caught')
                outs.append(self.block(h.body, frozenset((st, frozenset(), pd) for st, cd, pd in R)))
            out = self.merge(o, *outs, {'raise': R})
            if s.finalbody:
                fin = {}
                for k, v in out.items():
                    f = self.block(s.finalbody, v)
                    fin = self.merge(fin, {k: f.pop('next', frozenset())}, f)
                out = fin
            return out
        if isinstance(s, ast.Match):
            T_ = self.expr(s.subject, S)
            return self.merge(*[self.block(c.body, frozenset((st, frozenset(), pd) for st, cd, pd in T_)) for c in s.cases], {'next': T_, 'raise': S})
        raise Unclear(type(s).__name__)

    def judge(self, f):
        self.bad = []; self.yields = []
        o = self.block(f.body, frozenset([((), frozenset(), None)]))
        for k in ('next', 'return'):
            for st, cd, pd in o.get(k, ()):
                if st: self.bad.append('left open: the line opened in line %s' % ', '.join(map(str, st)))
        return sorted(set(self.bad))


@unit('C22', 'every line opened is closed', ['dill._dill:every function that writes a trace'], covers=['functions', 'registered'])
def balance(m):
    """over every path of every function that traces: the lines it opens are the lines it closes, in order; so by induction over the calls every dump is balanced"""
    from pyvc.interp import Source
    import glob
    n = 0
    for path in sorted(glob.glob(os.path.join(REPO, 'dill', '*.py'))):
        with open(path, encoding='utf8') as f: tree = ast.parse(f.read())
        name = os.path.basename(path)[:-3]
        if name == 'logger': continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and x.attr in ('_trace_depth', '_size_stack') and not isinstance(x.ctx, ast.Load): raise Unsupported('%s changes the state of the trace' % name)
        b = Balance(m, tree)
        for fname, f in b.entries():
            if fname == '_extend': continue
            try: bad = b.judge(f)
            except Unclear as e: m.ctx.res.unsupported.append('%s: %s' % (fname, e)); continue
            n += 1
            m.prove('balanced: %s%s' % (fname, ' (%s)' % '; '.join(bad) if bad else ''), not bad)
            if any('register' in ast.dump(d) for d in f.decorator_list): m.cover('registered')
    if n >= 20: m.cover('functions')
