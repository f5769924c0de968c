from contracts.common import *
import numbers


LINE = z3.Function('line', I, STR)
ENDLESS = z3.Function('without_line_end', STR, STR)      # rstrip('\r\n')
TEXT = z3.Function('without_indentation', STR, STR)      # lstrip()
BLANKS = z3.Function('indentation', STR, STR)            # what lstrip() removes
WIDE = z3.Function('with_tabs_expanded', STR, STR)
SIZE = z3.Function('indentsize', STR, I)
CORE = z3.Function('without_outer_blanks', STR, STR)     # strip()
AFTER = z3.Function('after', STR, I, STR)            # t[n:]
REPEAT = z3.Function('repeated', STR, I, STR)
cols = lambda t: SIZE(ENDLESS(t))
TAB = z3.StringVal('\t')


def z(i): return z3.IntVal(i) if isinstance(i, int) else i


class Lines:
    """a text of any number of lines (taken apart at line feeds, and joined again), or a list of lines; what is known of the indentation of text"""
    def __init__(self, m, code=None):
        self.m, self.code, self.n = m, code, m.ctx.fresh('nlines', I); self.joined = []; self.lists = {}
        m.assume(self.n >= 1)
        real = m.env.str_method
        def str_method(mm, o, name, args, kw):
            if kw: return real(mm, o, name, args, kw)
            args = [mm.force(a) for a in args]; lit = [a.v if isinstance(a, C) else None for a in args]
            if name == 'join' and isinstance(o, C) and o.v == '\n' and len(args) == 1 and self.state(args[0]) is not None:
                st = self.state(args[0]).copy(); t = mm.ctx.fresh('joined', STR); self.joined.append((t, st)); return SStr(t)
            if isinstance(o, SStr) or isinstance(o, S):
                s = zstr(o)
                if self.code is not None and z3.simplify(s).eq(self.code):
                    if name == 'split' and lit == ['\n']: return self.new()
                    if name == 'split' and lit == ['\n', 1]:
                        if mm.ctx.branch(self.n == 1): return mm.new_list([SStr(LINE(z(0)))])
                        return mm.new_list([SStr(LINE(z(0))), mm.sym('the_rest', K_STR)])
                    if name == 'partition' and lit == ['\n']:
                        if mm.ctx.branch(self.n == 1): return T([o, C(''), C('')])
                        return T([SStr(LINE(z(0))), C('\n'), mm.sym('the_rest', K_STR)])
                    if name in ('splitlines', 'rsplit', 'partition', 'rpartition', 'replace', 'expandtabs'): raise Unsupported('the text is taken apart in another way')
                if name == 'rstrip' and len(lit) == 1 and isinstance(lit[0], str) and set(lit[0]) == {'\r', '\n'}: return SStr(ENDLESS(s))
                if name == 'lstrip' and (not lit or lit == [None]): self.indented(s); return SStr(TEXT(s))
                if name == 'expandtabs' and not lit: self.expanded(s); return SStr(WIDE(s))
                if name == 'strip' and (not lit or lit == [None]): return SStr(CORE(s))
                if name in ('rstrip', 'lstrip', 'strip', 'expandtabs', 'replace'): raise Unsupported('the indentation is determined in another way')
            return real(mm, o, name, args, kw)
        m.env.str_method = str_method
        getitem = m.env.str_getitem
        def str_getitem(mm, o, i):
            if isinstance(o, C) or not isinstance(i, SliceV): return getitem(mm, o, i)
            t = zstr(o); lo, hi, st = (mm.force(x) for x in (i.lo, i.hi, i.st))
            if st is not NONE and not (isinstance(st, C) and st.v is None): raise Unsupported('a slice')
            none = lambda x: x is NONE or isinstance(x, C) and x.v is None
            cut = z3.Length(t) - z3.Length(TEXT(t))
            if none(lo) and not none(hi):
                if mm.ctx.must(zint(hi) == cut): self.indented(t); return SStr(BLANKS(t))
                raise Unsupported('the start of a line')
            if none(hi) and not none(lo):
                n = zint(lo)
                if mm.ctx.must(n == cut): self.indented(t); return SStr(TEXT(t))
                if not mm.ctx.branch(n >= 0): raise Unsupported('a slice from the end')
                mm.assume(z3.Implies(n == 0, AFTER(t, n) == t)); return SStr(AFTER(t, n))
            raise Unsupported('a slice')
        m.env.str_getitem = str_getitem
        m.overrides = dict(m.overrides)
        def size(mm, a, kw):
            t = SIZE(zstr(a[0])); mm.assume(t >= 0); return SInt(t)
        m.overrides[host_rid(SRC.indentsize)] = size
        def times(mm, op, a, b):
            if op != 'Mult': return None
            if mm.pytype(b) is str: a, b = b, a
            if mm.pytype(a) is not str or mm.pytype(b) not in (int, bool) or isinstance(b, C): return None
            n = zint(b)
            return SStr(REPEAT(zstr(a), n))
        m.env.binop_hook = times
        self.spec = EachLine(self)
        m.loopspecs = AnyFunction(self.spec)
        m.ghost['comp_hooks'] = [self.comprehension]
        m.assume([cols(LINE(z(0))) >= 0])
    def indented(self, s): self.m.assume([s == z3.Concat(BLANKS(s), TEXT(s)), z3.Length(BLANKS(s)) == z3.Length(s) - z3.Length(TEXT(s))])
    def expanded(self, s): self.m.assume([z3.Implies(z3.Not(z3.Contains(s, TAB)), WIDE(s) == s)])
    def new(self):
        o = self.m.alloc(list); self.m.lists[o.addr] = LState([], self.n, lambda i: SStr(LINE(z(i))), None); self.lists[o.addr] = 'lines'; return o
    def state(self, v):
        if self.m.pytype(v) is not list: return None
        try: return self.m.lstate(v)
        except Exception: return None
    def comprehension(self, mm, x, fr):
        """[element(line) for line in the lines]"""
        g = x.generators
        if len(g) != 1 or g[0].ifs: return None
        v = mm.eval(g[0].iter, fr); seq = mm.iterate(v)
        if not isinstance(seq, Seq): raise Unsupported('a comprehension')
        if mm.ctx.choose(2) == 0:
            def check(i, ok, elt):
                mm.prove('each line is transformed as specified', zstr(elt()) == self.spec.want(i))
            arbitrary_item(mm, x, fr, seq, check)
        want = self.spec.want; o = mm.alloc(list); mm.lists[o.addr] = LState([], seq.n, lambda i: SStr(want(z(i))), None); return o


class AnyFunction(dict):
    def __init__(self, spec): self.spec = spec
    def get(self, k, d=None): return [self.spec]


class EachLine:
    """a loop over the lines: the lines before the current one are transformed, those after it are as they were (the same list changed in place, or a new one appended to)"""
    want = None
    def __init__(self, L): self.L = L
    def matches(self, m, s, fr):
        return self.want is not None
    def run_for(self, m, s, fr, seq):
        if not isinstance(seq, Seq): raise Unsupported('a loop over something else')
        if isinstance(seq.n, int) or z3.is_int_value(z3.simplify(seq.n)):
            k = seq.n if isinstance(seq.n, int) else z3.simplify(seq.n).as_long()
            for i in range(k):
                m.assign(s.target, seq.get(z(i)), fr)
                try: m.exec_body(s.body, fr)
                except BreakExc: return
                except ContinueExc: pass
            return m.exec_body(s.orelse, fr)
        state = {}
        for v in fr.vars.values():
            if v is None or v is ABSENT: continue
            try: p = m.pytype(v)
            except Exception: continue
            if p is not list: continue
            key = m.key(v, m.lists); st = m.lists.get(key)
            if st is None: st = m.lstate(v)
            if st.n is None and not st.items: state[key] = 'appended'
            elif st.n is not None and not st.items: state[key] = 'in place'
        modes = set(state.values()); target = 'appended' if 'appended' in modes else 'in place'
        want = self.want; old = {k: m.lists[k] for k in state}
        def at(i):
            for k, mode in state.items():
                if mode != target: continue
                if mode == 'appended': m.lists[k] = LState([], i, lambda q: SStr(want(z(q))), None)
                else: m.lists[k] = LState([], old[k].n, lambda q, o=old[k]: SStr(z3.If(z(q) < i, want(z(q)), zstr(o.get(z(q))))), None)
        if m.ctx.choose(2) == 0:
            i = m.ctx.fresh('i', I); m.assume([i >= 0, i < seq.n]); at(i)
            m.assume([cols(LINE(i)) >= 0, SIZE(LINE(i)) >= 0])
            m.assign(s.target, seq.get(i), fr)
            try: m.exec_body(s.body, fr)
            except BreakExc: m.prove('the loop goes through all lines', False)
            except ContinueExc: pass
            q = m.ctx.fresh('q', I)
            for k, mode in state.items():
                st = m.lists[k]
                if mode != target: m.prove('the lines are as they were', st is old[k] or st.get is old[k].get); continue
                m.prove('the number of lines', (st.n if st.n is not None else z(0)) + len(st.items) == (i + 1 if mode == 'appended' else old[k].n))
                def item(q):
                    if not st.items: return zstr(st.get(q))
                    return z3.If(q < st.n, zstr(st.get(q)), zstr(st.items[0])) if len(st.items) == 1 else zstr(m.force(st.items[-1]))
                m.assume([q >= 0, q < (i + 1 if mode == 'appended' else old[k].n)])
                m.prove('the lines up to this one are transformed as specified, the others are as they were', item(q) == (want(q) if mode == 'appended' else z3.If(q <= i, want(q), zstr(old[k].get(q)))))
            raise PathEnd('any line')
        at(seq.n)
        m.exec_body(s.orelse, fr)


def outdented(t, n):
    """the text t without n columns of its indentation"""
    return z3.If(n <= 0, t, z3.If(z3.Contains(BLANKS(t), TAB), tail(z3.Concat(WIDE(BLANKS(t)), TEXT(t)), n), tail(t, n)))
def tail(t, n): return AFTER(t, n)


def amount(spaces):
    """how many columns outdent removes at most"""
    first = cols(LINE(z(0)))
    if spaces is NONE: return first
    return z3.If(z3.Or(zint(spaces) > first, zint(spaces) < 0), first, zint(spaces))


def axioms(m, t): m.assume([t == z3.Concat(BLANKS(t), TEXT(t)), z3.Length(BLANKS(t)) == z3.Length(t) - z3.Length(TEXT(t)), z3.Implies(z3.Not(z3.Contains(BLANKS(t), TAB)), WIDE(BLANKS(t)) == BLANKS(t)), cols(t) >= 0])


def given_spaces(m):
    if m.ctx.choose(2): return NONE
    return m.sym('spaces', K_INT)


def outdent_all(m, fn, L, code, spaces, all):
    n = amount(spaces)
    want = lambda i: outdented(LINE(i), z3.If(n > cols(LINE(i)), cols(LINE(i)), n))
    L.spec.want = want; axioms(m, LINE(z(0)))
    kw = {}; args = [code]
    kw['all'] = all
    if spaces is not NONE or m.ctx.choose(2): args.append(spaces)
    out, r = m.run(fn, args, kw)
    m.prove('no exception', out == 'return')
    if out != 'return': return None
    q = m.ctx.fresh('line_number', I); m.assume([q >= 0, q < L.n]); axioms(m, LINE(q))
    return r, q, z3.If(z3.Or(m.truth(all), q == 0), want(q), LINE(q))


def result(m, L, r):
    """the lines of a result"""
    for t, st in L.joined:
        if isinstance(r, SStr) and z3.simplify(r.t).eq(t): return st
    raise Unsupported('the result is put together in another way')


def entry(m, st, q):
    if st.n is None:
        e = zstr(m.force(st.items[-1]))
        for j in reversed(range(len(st.items) - 1)): e = z3.If(q == j, zstr(m.force(st.items[j])), e)
        return e
    if not st.items: return zstr(st.get(q))
    e = zstr(m.force(st.items[-1]))
    for j in reversed(range(len(st.items) - 1)): e = z3.If(q == st.n + j, zstr(m.force(st.items[j])), e)
    return z3.If(q < st.n, zstr(st.get(q)), e)
def length(st): return (st.n if st.n is not None else z(0)) + len(st.items)


@unit('C24', 'outdent', ['dill.source:outdent', 'dill.source:_outdent'], covers=['all lines', 'only the first', 'a number of columns', 'all of the first'])
def outdent(m):
    """any text of any number of lines, any number of columns (or None), all lines or the first only"""
    code = m.ctx.fresh('code', STR); L = Lines(m, code); spaces = given_spaces(m); all = m.sym('all', K_BOOL)
    x = outdent_all(m, SRC.outdent, L, SStr(code), spaces, all)
    if x is None: return
    r, q, want = x; st = result(m, L, r)
    m.cover('all of the first' if spaces is NONE else 'a number of columns'); m.cover('all lines' if m.branch(all) else 'only the first')
    m.prove('as many lines as before', length(st) == L.n)
    m.prove('each line without the columns, and otherwise unchanged', entry(m, st, q) == want)


@unit('C24', 'lines of a source', ['dill.source:_outdent'], covers=['lines'])
def outdent_lines(m):
    """any list of at least one line"""
    L = Lines(m); spaces = given_spaces(m); all = m.sym('all', K_BOOL); o = L.new()
    x = outdent_all(m, SRC._outdent, L, o, spaces, all)
    if x is None: return
    r, q, want = x; st = L.state(r)
    if st is None: m.prove('the result is a list', False); return
    m.cover('lines')
    m.prove('as many lines as before', length(st) == L.n)
    m.prove('each line without the columns, and otherwise unchanged', entry(m, st, q) == want)


@unit('C24', 'indent', ['dill.source:indent'], covers=['a number of columns', 'a prefix', 'a blank last line', 'a last line'])
def indent(m):
    """any text of any number of lines, any number of columns or prefix"""
    code = m.ctx.fresh('code', STR); L = Lines(m, code); axioms(m, LINE(z(0)))
    if m.ctx.choose(2): sp = m.sym('spaces', K_INT); by = REPEAT(z3.StringVal(' '), sp.t); m.cover('a number of columns')
    else: sp = m.sym('spaces', K_STR); by = sp.t; m.cover('a prefix')
    want = lambda i: z3.If(cols(LINE(i)) >= cols(LINE(z(0))), z3.Concat(by, LINE(i)), LINE(i))
    L.spec.want = want
    out, r = m.run(SRC.indent, [SStr(code), sp])
    m.prove('no exception', out == 'return')
    if out != 'return': return
    st = result(m, L, r); q = m.ctx.fresh('line_number', I); m.assume([q >= 0, q < L.n]); axioms(m, LINE(q))
    m.prove('as many lines as before', length(st) == L.n)
    last = CORE(want(L.n - 1)) == z3.StringVal('')
    m.cover('a blank last line' if m.ctx.branch(last) else 'a last line')
    m.prove('each line with the indentation in front if it is indented as far as the first, and otherwise unchanged', entry(m, st, q) == z3.If(z3.And(q == L.n - 1, last), z3.StringVal(''), want(q)))


# ------------------------------------------------------------------ import strings
INTYPES = z3.Function('a_type_of_types', STR, B)
PARENT = z3.Function('parent_module', STR, STR)
lit = z3.StringVal
def cat(*xs): return z3.Concat(*[lit(x) if isinstance(x, str) else x for x in xs])


class Imports:
    """what is executed to verify an import string, and how it ends; the names in types; the enclosing package of a module"""
    def __init__(self, m):
        self.m, self.tried, self.inner = m, [], []
        m.overrides = dict(m.overrides)
        def intypes(mm, a, kw): return SBool(INTYPES(zstr(a[0])))
        m.overrides[host_rid(SRC._intypes)] = intypes
        def execute(mm, a, kw):
            k = mm.ctx.choose(3); mm.prove('one string is tried', not self.tried)
            self.tried.append((zstr(a[0]), ('works', 'no import', 'another error')[k]))
            if k == 1: self.exc = mm.sym_exc('no_import', isa=(ImportError,), nota=()); raise PyRaise(self.exc)
            if k == 2: self.exc = mm.sym_exc('error', isa=(BaseException,), nota=(ImportError,)); raise PyRaise(self.exc)
            return NONE
        m.overrides[host_rid(exec)] = execute
        real = m.env.str_method
        def str_method(mm, o, name, args, kw):
            a = [mm.force(x) for x in args]; lits = [x.v if isinstance(x, C) else None for x in a]
            if isinstance(o, SStr) and not kw:
                if name == 'rsplit' and lits == ['.', 1]:
                    if not mm.ctx.branch(z3.Contains(o.t, lit('.'))): return mm.new_list([o])
                    rest = mm.ctx.fresh('rest', STR); mm.assume([o.t == cat(PARENT(o.t), '.', rest), PARENT(o.t) != o.t]); return mm.new_list([SStr(PARENT(o.t)), SStr(rest)])
                if name == 'rpartition' and lits == ['.']:
                    if not mm.ctx.branch(z3.Contains(o.t, lit('.'))): return T([C(''), C(''), o])
                    rest = mm.ctx.fresh('rest', STR); mm.assume([o.t == cat(PARENT(o.t), '.', rest), PARENT(o.t) != o.t]); return T([SStr(PARENT(o.t)), C('.'), SStr(rest)])
            return real(mm, o, name, args, kw)
        m.env.str_method = str_method
        self.result = m.sym('of_the_package', K_STR); self.failure = m.sym_exc('of_the_package')
    def hide(self):
        """the induction hypothesis: a nested call satisfies the contract"""
        def inner(mm, a, kw):
            names = ['head', 'tail', 'alias', 'verify', 'builtin']; v = dict(zip(names, a)); v.update(kw)
            self.inner.append(v)
            if mm.ctx.choose(2): raise PyRaise(self.failure)
            return self.result
        self.m.overrides[host_rid(SRC._getimport)] = inner


COVERS = ['a name that needs no import', 'from a module', 'a module', 'verified', 'not verified', 'of an enclosing package', 'an error']


@unit('C24', 'import strings', ['dill.source:_getimport'], covers=COVERS, seconds=240)
def imports(m):
    """any module, name and alias; verified or not; built-in names imported or not"""
    x = Imports(m); head, tail, alias = (m.sym(n, K_STR) for n in ('head', 'tail', 'alias')); verify, builtin = m.sym('verify', K_BOOL), m.sym('builtin', K_BOOL)
    h, t, a = head.t, tail.t, alias.t
    m.assume(z3.Length(t) > 0)
    out, r = run_outer(m, x, [head, tail, alias, verify, builtin])
    special = z3.And(h == lit('types'), z3.Or(t == lit('Ellipsis'), t == lit('NotImplemented')))
    h1 = z3.If(special, lit('builtins'), h); b = z3.Or(h1 == lit('builtins'), h1 == lit('__builtin__'))
    t1 = z3.If(z3.And(b, t == lit('ellipsis')), lit('EllipsisType'), t); inty = z3.And(b, INTYPES(t1))
    h2 = z3.If(inty, lit('types'), h1); renamed = z3.And(a != lit(''), a != t1)
    plain = z3.Or(z3.And(h == lit('types'), t == lit('None')), z3.And(b, z3.Not(inty), z3.Not(m.truth(builtin))))
    named = cat(z3.If(renamed, cat(a, ' = '), lit('')), t1, '\n')
    imp = cat(z3.If(h2 == lit(''), cat('import ', t1), cat('from ', h2, ' import ', t1)), z3.If(renamed, cat(' as ', a, '\n'), lit('\n')))
    if m.ctx.branch(plain):
        m.cover('a name that needs no import'); m.prove('no exception', out == 'return'); m.prove('nothing is imported', not x.tried and not x.inner)
        if out == 'return': m.prove('the name, assigned to the alias if one is given', zstr(r) == named)
        return
    m.cover('a module' if m.ctx.branch(h2 == lit('')) else 'from a module')
    for s, how in x.tried: m.prove('the string that is tried is the import string', s == imp)
    if m.ctx.branch(z3.And(m.truth(verify), z3.Not(z3.PrefixOf(lit('dill.'), h2)))): m.prove('the string is verified', len(x.tried) == 1)
    else: m.cover('not verified')
    if not x.tried or x.tried[0][1] == 'works':
        if x.tried: m.cover('verified')
        m.prove('no exception', out == 'return'); m.prove('no other string is made', not x.inner)
        if out == 'return': m.prove('exactly the name from exactly the module, as the alias if one is given', zstr(r) == imp)
        return
    if x.tried[0][1] == 'another error': m.cover('an error'); m.prove('the error is raised', out == 'raise' and m.is_(r, x.exc)); return
    if x.inner:
        v = x.inner[0]; m.cover('of an enclosing package'); m.prove('one string is made', len(x.inner) == 1)
        m.prove('the same name from the enclosing package', And(zstr(v['head']) == PARENT(h2), zstr(v['head']) != lit(''), zstr(v['tail']) == t1))
        m.prove('with the same alias', 'alias' in v and z3.Or(zstr(v['alias']) == a))
        m.prove('verified as well', m.truth(v['verify']) if 'verify' in v else True)
        m.prove('and it is what is given', And(out == 'return', m.is_(r, x.result)) if out == 'return' else m.is_(r, x.failure))
    elif out == 'return': m.prove('the module has no enclosing package', And(z3.Not(z3.Contains(h2, lit('.'))), h2 != lit(''))); m.prove('the string for the module', zstr(r) == imp)
    else: m.prove('the error is raised', m.is_(r, x.exc))


def run_outer(m, x, args):
    """the first call runs the code, nested ones are replaced by the contract"""
    import types as _t
    fn = SRC._getimport
    shadow = _t.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, fn.__closure__)
    shadow.__module__, shadow.__qualname__ = fn.__module__, fn.__qualname__
    x.hide()
    return m.run(shadow, args)


@unit('C24', 'names of types', ['dill.source:_intypes'], covers=['in types', 'not in types'])
def names_of_types(m):
    """any name: it is in types exactly if the types module has it (ellipsis is EllipsisType there)"""
    import types as ty
    has = z3.Function('types_has', STR, B); name = m.sym('name', K_STR); m.assume(has(lit('EllipsisType')) == hasattr(ty, 'EllipsisType'))
    def hasattr_(mm, a):
        mm.prove('the types module is asked', isinstance(a[0], C) and a[0].v is ty); return SBool(has(zstr(a[1])))
    m.ghost['hasattr_hook'] = hasattr_
    out, r = m.run(SRC._intypes, [name]); m.prove('no exception', out == 'return')
    if out != 'return': return
    want = has(z3.If(name.t == lit('ellipsis'), lit('EllipsisType'), name.t))
    m.cover('in types' if m.ctx.branch(want) else 'not in types'); m.prove('whether types has it', m.truth(r) == want)
