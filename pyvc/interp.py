"""Symbolic interpreter of Python function bodies, working on the ast of the files under verification."""
import ast, builtins, sys, os, types, inspect, functools, operator
import z3
from .terms import *
from .core import *

REPO = os.environ.get('PYVC_REPO', '/repo')


class _Absent:
    def __repr__(self): return 'ABSENT'
ABSENT = _Absent()


# ----------------------------------------------------------------------------- sources
class Source:
    """functions of the tree under verification, indexed by (file, first line)"""
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.files = {}
        self.index = {}
        self.parents = {}
        for dp, dn, fn in os.walk(os.path.join(self.root, 'dill')):
            if 'tests' in dp.split(os.sep) or '__pycache__' in dp: continue
            for f in fn:
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    with open(p, encoding='utf-8') as fh: src = fh.read()
                    tree = ast.parse(src, p)
                    self.files[p] = (src, tree)
                    for node in ast.walk(tree):
                        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                            ln = node.decorator_list[0].lineno if isinstance(node, ast.FunctionDef) and node.decorator_list else node.lineno
                            name = getattr(node, 'name', '<lambda>')
                            self.index.setdefault((p, ln, name), []).append(node)
                            node._file = p
                        elif isinstance(node, ast.ClassDef):
                            node._file = p

    def node_of(self, code):
        try: p = os.path.realpath(code.co_filename)
        except Exception: return None
        c = self.index.get((p, code.co_firstlineno, code.co_name))
        if not c or len(c) != 1: return None
        return c[0]


class Closure:
    """description of a function object created by the executed code, or of a host function's code"""
    __slots__ = ('node', 'frame', 'defaults', 'kwdefaults', 'module', 'name', 'cls', 'qual')
    def __init__(self, node, frame, defaults, kwdefaults, module, name, cls=None, qual=None):
        self.node, self.frame, self.defaults, self.kwdefaults, self.module, self.name, self.cls = node, frame, defaults, kwdefaults, module, name, cls
        self.qual = qual or name


class Frame:
    __slots__ = ('vars', 'locals', 'parent', 'module', 'globals_decl', 'nonlocals', 'fn', 'on_yield', 'cur_exc', 'loops', 'cls', 'self_val', 'comp', 'extra')
    def __init__(self, parent, module, fn):
        self.vars = {}
        self.locals = set()
        self.parent = parent
        self.module = module
        self.globals_decl = set()
        self.nonlocals = set()
        self.fn = fn
        self.on_yield = None
        self.loops = 0
        self.cls = None
        self.self_val = None
        self.comp = False
        self.extra = {}


class PyRaise(Exception):
    def __init__(self, val):
        self.val = val


class ReturnExc(Exception):
    def __init__(self, val): self.val = val


class BreakExc(Exception): pass
class ContinueExc(Exception): pass


class Obj:
    """description of an allocated object"""
    __slots__ = ('pytype', 'meta', 'name')
    def __init__(self, pytype, meta=None, name=None):
        self.pytype, self.meta, self.name = pytype, meta, name


class M(Val):
    """a bound method: self value and name (or callable)"""
    __slots__ = ('self', 'name', 'func')
    def __init__(self, self_, name, func=None): self.self, self.name, self.func = self_, name, func
    def __repr__(self): return 'M(%r.%s)' % (self.self, self.name)


class It(Val):
    """an iterator over engine values (python list), or a symbolic sequence"""
    __slots__ = ('items', 'seq', 'pos')
    def __init__(self, items=None, seq=None): self.items, self.seq, self.pos = items, seq, 0


class Lazy(Val):
    """an iterator of unknown, unbounded length

    step(m): the next item (fresh), or raises; more(m): whether there is one (default: arbitrary)
    key(m): ghost state of the unit. Loops over it are explored until the state at the loop head (live locals,
    heap, ghost) repeats one met before on the same path: what follows is then subsumed by what followed there.
    """
    __slots__ = ('step', 'more', 'ghost', 'n')
    def __init__(self, step, more=None, ghost=None): self.step, self.more, self.ghost, self.n = step, more, ghost or (lambda m: ()), 0
    def next(self, m):
        """item or ABSENT"""
        if not (self.more(m) if self.more else m.ctx.choose(2)): return ABSENT
        self.n += 1
        return self.step(m)


class SuperV(Val):
    __slots__ = ('cls', 'self')
    def __init__(self, cls, self_): self.cls, self.self = cls, self_


class Seq:
    """a symbolic finite sequence of unknown length"""
    __slots__ = ('n', 'get', 'src', 'facts')
    def __init__(self, n, get, src=None, facts=None): self.n, self.get, self.src, self.facts = n, get, src, facts


class DMap:
    """dictionary contents: base array (None = empty) overlaid with decided writes, in insertion order"""
    __slots__ = ('base', 'writes', 'keykind', 'valkind', 'name')
    def __init__(self, base=None, writes=(), keykind=None, valkind=None, name=None):
        self.base, self.writes, self.keykind, self.valkind, self.name = base, list(writes), keykind, valkind, name
    def copy(self): return DMap(self.base, list(self.writes), self.keykind, self.valkind, self.name)
    def array(self):
        a = self.base if self.base is not None else EMPTYD
        for k, v in self.writes:
            a = z3.Store(a, term(k), OV.absent if v is ABSENT else OV.some(term(v)))
        return a


class LState:
    """list contents: symbolic prefix (n, arr) followed by known items"""
    __slots__ = ('n', 'get', 'items', 'arr')
    def __init__(self, items=(), n=None, get=None, arr=None): self.items, self.n, self.get, self.arr = list(items), n, get, arr
    def copy(self): return LState(list(self.items), self.n, self.get, self.arr)


class Iteration:
    '''loop contract: an arbitrary iteration is verified on its own, then the loop is summarised.

    at_iter(m, i, item, events, outcome): proof of one iteration (i symbolic, 0 <= i < n)
    after(m, seq): establishes the summary state after the loop (havoc, ghost events)
    '''
    def __init__(self, at_iter, after, when=None, before_iter=None):
        self.at_iter, self.after, self.when, self.before_iter = at_iter, after, when, before_iter
    def matches(self, m, s, fr): return self.when is None or self.when(m, s, fr)
    def run_for(self, m, s, fr, seq):
        if m.ctx.choose(2) == 0:
            i = m.ctx.fresh('i', I)
            m.assume([i >= 0, i < seq.n])
            if self.before_iter: self.before_iter(m, i, seq)
            item = seq.get(i)
            m.assign(s.target, item, fr)
            mark = len(m.trace); out = 'next'
            try: m.exec_body(s.body, fr)
            except BreakExc: out = 'break'
            except ContinueExc: out = 'next'
            self.at_iter(m, i, item, m.trace[mark:], out)
            raise PathEnd('loop iteration verified')
        if self.after(m, seq) == 'break': return
        m.exec_body(s.orelse, fr)


class SState:
    __slots__ = ('base', 'writes')
    def __init__(self, base=None, writes=()): self.base, self.writes = base, list(writes)   # writes: (val, True/False)
    def copy(self): return SState(self.base, list(self.writes))
    def array(self):
        a = self.base if self.base is not None else EMPTYS
        for k, v in self.writes: a = z3.Store(a, term(k), z3.BoolVal(v))
        return a


# ----------------------------------------------------------------------------- kinds
class Kind:
    """what is known about a symbolic object

    pytype : exact host type of the value, or None
    isa    : host classes it is known to be an instance of; nota: known not to be
    attrs  : name -> Kind | Opt(Kind) | Val | callable(m, self) -> Val
    methods: name -> handler(m, self, args, kwargs) -> Val
    call   : handler(m, self, args, kwargs)
    open   : attributes not listed may or may not exist (value unknown)
    """
    def __init__(self, name, pytype=None, isa=(), nota=(), attrs=None, methods=None, call=None, open=False, cons=None,
                 truth=None, iter=None, getitem=None, dictkinds=None, eq=None, base=None, setattr=None, contains=None, length=None):
        if base is not None:
            pytype = pytype or base.pytype; isa = tuple(isa) + tuple(base.isa); nota = tuple(nota) + tuple(base.nota)
            attrs = dict(base.attrs, **(attrs or {})); methods = dict(base.methods, **(methods or {}))
            call = call or base.call; open = open or base.open; cons = cons or base.cons
            truth = truth if truth is not None else base.truth; iter = iter or base.iter; getitem = getitem or base.getitem
            dictkinds = dictkinds or base.dictkinds; eq = eq or base.eq; setattr = setattr or base.setattr
            contains = contains or base.contains; length = length or base.length
        self.name, self.pytype, self.isa, self.nota = name, pytype, tuple(isa), tuple(nota)
        self.attrs, self.methods, self.call, self.open, self.cons = attrs or {}, methods or {}, call, open, cons
        self.truth, self.iter, self.getitem, self.dictkinds, self.eq, self.setattr = truth, iter, getitem, dictkinds, eq, setattr
        self.contains, self.length = contains, length
    def __repr__(self): return 'Kind(%s)' % self.name


class Opt:
    """attribute that may be absent"""
    def __init__(self, kind): self.kind = kind


class OneOf(Kind):
    def __init__(self, *kinds):
        Kind.__init__(self, '|'.join(k.name for k in kinds))
        self.kinds = kinds


ANY = Kind('any', cons='any', open=True)
ANYREF = Kind('object', cons='ref', open=True)
K_STR = Kind('str', pytype=str, cons='strv')
K_INT = Kind('int', pytype=int, cons='intv')
K_BOOL = Kind('bool', pytype=bool, cons='boolv')
K_BYTES = Kind('bytes', pytype=bytes, cons='bytv')
K_NONE = Kind('None', pytype=type(None), cons='none')
K_TUPLE = Kind('tuple', pytype=tuple, cons='ref')
K_DICT = Kind('dict', pytype=dict, cons='ref')
K_LIST = Kind('list', pytype=list, cons='ref')
K_SET = Kind('set', pytype=set, cons='ref')
K_TYPE = Kind('type', isa=(type,), cons='ref', open=True)


# attribute functions
_fn_cache = {}
def ufun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fn_cache: _fn_cache[k] = z3.Function(name, *sorts)
    return _fn_cache[k]


def attr_val(name, ep): return ufun('attr_%s@%d' % (name, ep), I, V)
def attr_has(name, ep): return ufun('has_%s@%d' % (name, ep), I, B)
typeof = ufun('typeof', V, V)
dict0 = lambda ep: ufun('dict@%d' % ep, I, DICT)
list0n = lambda ep: ufun('listlen@%d' % ep, I, I)
list0e = lambda ep: ufun('listelem@%d' % ep, I, I, V)
set0 = lambda ep: ufun('set@%d' % ep, I, SETS)
tlen = ufun('tuplen', I, I)
telem = ufun('tupelem', I, I, V)
dsize = ufun('dictsize', DICT, I)
dkey = ufun('dictkey', DICT, I, V)
strof = ufun('strof', V, STR)
reprof = ufun('reprof', V, STR)
pyeq = ufun('pyeq', V, V, B)
pytruth = ufun('pytruth', V, B)
pyhash = ufun('pyhash', V, I)
idof = ufun('idof', V, I)


def inst_fn(cls): return ufun('inst_%s_%d' % (getattr(cls, '__name__', 'c'), -host_rid(cls)), V, B)


BUILTIN_SOLID = (int, str, bytes, tuple, list, dict, set, frozenset, type, types.ModuleType, types.FunctionType,
                 types.CodeType, float, types.MethodType, types.BuiltinFunctionType, property, slice, range, BaseException,
                 types.CellType, types.MappingProxyType, types.FrameType, types.TracebackType, type(None))


class Machine:
    def __init__(self, ctx, env):
        self.ctx = ctx
        self.env = env                  # Env: sources, models, contracts (shared)
        self.objs = {}
        self.next_addr = OLD_MAX
        self.attrs = {}                 # key -> {name: Val | ABSENT}
        self.dicts = {}                 # key -> DMap
        self.lists = {}
        self.sets = {}
        self.symkeys = []               # canonical symbolic addresses with an overlay: (term, key)
        self.kinds = {}
        self.kept = []
        self.epoch = 0
        self.trace = []                 # ghost: observable events
        self.depth = 0
        self.overrides = {}             # host rid / name -> model, per contract
        self.loopspecs = {}
        self.inst_asked = {}            # term id -> {cls: formula}
        self.ghost = {}
        self.no_contracts = False
        self.exc_stack = []
        self.written = None
        self.on_attr_write = None
        self.mutable_types = {}
        if env.machine_init: env.machine_init(self)

    # ------------------------------------------------------------------ allocation / kinds
    def alloc(self, pytype, meta=None, name=None):
        a = self.next_addr; self.next_addr += 1
        self.objs[a] = Obj(pytype, meta, name)
        return O(a)

    def new_dict(self, pairs=(), pytype=dict):
        o = self.alloc(pytype); self.dicts[o.addr] = DMap(None, pairs); return o

    def new_list(self, items=()):
        o = self.alloc(list); self.lists[o.addr] = LState(items); return o

    def new_set(self, items=(), pytype=set):
        o = self.alloc(pytype); self.sets[o.addr] = SState()
        for x in items: self.set_add(o, x)
        return o

    def sym(self, name, kind=ANY, old=True):
        """fresh symbolic value of a kind"""
        t = self.ctx.fresh(name, V)
        return self.as_kind(t, kind, old)

    def as_kind(self, t, kind, old=True):
        """value for term t, assuming it has the kind"""
        if isinstance(kind, Val): return kind
        if callable(kind) and not isinstance(kind, Kind): return kind(self, t)
        u = unterm(t)
        if not isinstance(u, S): return u
        c = kind.cons
        if isinstance(kind, OneOf):
            fs = [self.kind_formula(t, k, old) for k in kind.kinds]
            self.ctx.assume(Or(*fs))
            self.setkind(t, kind)
            return S(t)
        if c == 'any':
            if old: self.ctx.assume(z3.Implies(V.is_ref(t), V.rid(t) < OLD_MAX))
            if t.get_id() not in self.kinds: self.setkind(t, kind)
            return S(t)
        self.ctx.assume(self.kind_formula(t, kind, old))
        if c == 'strv': return SStr(V.sv(t))
        if c == 'intv': return SInt(V.iv(t))
        if c == 'boolv': return SBool(V.bv(t))
        if c == 'bytv': return SByt(V.yv(t))
        if c == 'none': return NONE
        self.setkind(t, kind)
        for cl in kind.isa: self.isinst_formula(S(t), cl, assume=True)
        for cl in kind.nota: self.isinst_formula(S(t), cl, assume=False)
        return S(t)

    def kind_formula(self, t, kind, old=True):
        c = kind.cons
        if c == 'strv': return V.is_strv(t)
        if c == 'intv': return V.is_intv(t)
        if c == 'boolv': return V.is_boolv(t)
        if c == 'bytv': return V.is_bytv(t)
        if c == 'none': return V.is_none(t)
        if c == 'ref':
            f = [V.is_ref(t)]
            if old: f += [V.rid(t) < OLD_MAX, V.rid(t) >= 0]
            return z3.And(*f)
        if c == 'any':
            return z3.Implies(V.is_ref(t), V.rid(t) < OLD_MAX) if old else z3.BoolVal(True)
        raise Unsupported('kind formula %s' % kind)

    def setkind(self, t, kind):
        self.kinds[t.get_id()] = kind
        self.kept.append(t)

    def kind(self, v):
        if isinstance(v, S):
            k = self.kinds.get(v.t.get_id())
            return k or ANY
        return None

    def fresh_str(self, name='str'):
        return SStr(self.ctx.fresh(name, STR))
    def fresh_int(self, name='int'):
        return SInt(self.ctx.fresh(name, I))
    def fresh_bool(self, name='bool'):
        return SBool(self.ctx.fresh(name, B))

    def force(self, v):
        """decide which constructor a symbolic value has"""
        if not isinstance(v, S): return v
        u = unterm(v.t)
        if not isinstance(u, S): return u
        k = self.kind(v)
        t = v.t
        if isinstance(k, OneOf):
            for kk in k.kinds[:-1]:
                if self.ctx.branch(self.kind_formula(t, kk, False) if kk.cons != 'ref' else V.is_ref(t)):
                    if kk.cons == 'ref': self.setkind(t, kk); self._assume_isa(t, kk); return v
                    return self.as_kind(t, kk, False)
            kk = k.kinds[-1]
            if kk.cons == 'ref': self.setkind(t, kk); self._assume_isa(t, kk); return v
            return self.as_kind(t, kk, False)
        if k.cons == 'ref': return v
        for test, mk in ((V.is_none, lambda: NONE), (V.is_boolv, lambda: mkbool(V.bv(t))), (V.is_intv, lambda: mkint(V.iv(t))),
                         (V.is_strv, lambda: mkstr(V.sv(t))), (V.is_bytv, lambda: SByt(V.yv(t)))):
            if self.ctx.branch(test(t)): return mk()
        if self.ctx.branch(V.is_tupv(t)): return v
        if k is ANY: self.setkind(t, ANYREF)
        return v

    def _assume_isa(self, t, k):
        for cl in k.isa: self.isinst_formula(S(t), cl, assume=True)
        for cl in k.nota: self.isinst_formula(S(t), cl, assume=False)

    # ------------------------------------------------------------------ addresses
    def key(self, v, comp=None, write=False):
        """canonical heap key of a reference value"""
        if isinstance(v, O): return v.addr
        if isinstance(v, C): return host_rid(v.v)
        if isinstance(v, S):
            t = v.t
            tid = t.get_id()
            for (t2, k) in self.symkeys:
                if t2.get_id() == tid: return k
            # could it be one of the objects with an overlay?
            if comp is not None:
                cand = list(comp.keys())
                for k in cand:
                    if isinstance(k, int):
                        f = t == V.ref(k)
                        if k >= OLD_MAX or k < 0:
                            q = self.ctx.quick(z3.simplify(f))
                            kd = self.kind(v)
                            if kd.cons == 'ref' and not self.ctx.must(z3.Not(f)):
                                if self.ctx.branch(f): return k
                            elif kd.cons != 'ref' and self.ctx.branch(f): return k
                    else:
                        t2 = k[1]
                        if self.ctx.branch(t == t2): return k
            k = ('s', t)
            if write or True:
                self.symkeys.append((t, k)); self.kept.append(t)
            return k
        raise Unsupported('address of %r' % (v,))

    # ------------------------------------------------------------------ types
    def pytype(self, v):
        """host type if known, else None"""
        if isinstance(v, C): return type(v.v)
        if isinstance(v, SInt): return int
        if isinstance(v, SBool): return bool
        if isinstance(v, SStr): return str
        if isinstance(v, SByt): return bytes
        if isinstance(v, T): return tuple
        if isinstance(v, O): return self.objs[v.addr].pytype
        if isinstance(v, M): return types.MethodType
        if isinstance(v, It): return type(iter([]))
        if isinstance(v, SuperV): return super
        if isinstance(v, S): return self.kind(v).pytype
        return None

    def type_val(self, v):
        p = self.pytype(v)
        if p is not None: return C(p)
        if isinstance(v, S):
            w = self.force(v)
            if not isinstance(w, S): return self.type_val(w)
            p = self.pytype(w)
            if p is not None: return C(p)
            t = typeof(v.t)
            self.ctx.assume(V.is_ref(t)); 
            self.ctx.assume(V.rid(t) < OLD_MAX)
            # (exact ones are values, not references)
            self.ctx.assume([(V.rid(t) == host_rid(x)) == isc(w.t) for x, isc in ((str, V.is_strv), (bytes, V.is_bytv), (bool, V.is_boolv), (int, V.is_intv), (type(None), V.is_none))])
            if t.get_id() not in self.kinds: self.setkind(t, K_TYPE)
            return S(t)
        raise Unsupported('type of %r' % (v,))

    def isinst_formula(self, v, cls, assume=None):
        """formula: v is an instance of the host class cls"""
        if cls is object: return True
        p = self.pytype(v)
        if p is not None:
            if isinstance(v, C):
                try: return isinstance(v.v, cls)
                except Exception: raise Unsupported('isinstance host')
            try: return issubclass(p, cls)
            except Exception: raise Unsupported('issubclass host')
        t = v.t
        alts = []
        for c, tst in ((type(None), V.is_none), (bool, V.is_boolv), (int, V.is_intv), (str, V.is_strv), (bytes, V.is_bytv), (tuple, V.is_tupv)):
            if issubclass(c, cls): alts.append(tst(t))
        f = inst_fn(cls)(t)
        seen = self.inst_asked.setdefault(t.get_id(), {})
        if cls not in seen:
            self.kept.append(t)
            for d, fd in list(seen.items()):
                try:
                    if issubclass(cls, d): self.ctx.assume(z3.Implies(f, fd))
                    elif issubclass(d, cls): self.ctx.assume(z3.Implies(fd, f))
                    elif _disjoint(cls, d): self.ctx.assume(z3.Not(z3.And(f, fd)))
                except TypeError: pass
            seen[cls] = f
        if assume is True: self.ctx.assume(f)
        elif assume is False: self.ctx.assume(z3.Not(f))
        kd = self.kind(v)
        if kd.cons == 'ref': return f
        return z3.Or(*(alts + [z3.And(V.is_ref(t), f)]))

    # ------------------------------------------------------------------ exceptions
    def mkexc(self, cls, *args):
        e = self.alloc(cls)
        self.attrs[e.addr] = {'args': T(list(args)), '__traceback__': NONE, '__cause__': NONE, '__context__': NONE}
        if len(args) > 1 and issubclass(cls, OSError): self.attrs[e.addr]['errno'] = args[0]
        return e

    def raise_(self, cls, *args):
        raise PyRaise(self.mkexc(cls, *args))

    def sym_exc(self, name='exc', isa=(BaseException,), nota=()):
        """an exception of unknown class"""
        e = self.sym(name, Kind('exception', isa=tuple(isa), nota=tuple(nota), cons='ref', open=True,
                                attrs={'args': K_TUPLE, '__traceback__': ANY}), old=False)
        return e

    # ------------------------------------------------------------------ truth / comparison
    def truth(self, v):
        if isinstance(v, C):
            o = v.v
            if isinstance(o, (dict, list, set)) and not isinstance(o, type):
                if type(o) is dict: return self.truth_dict(v)
                if type(o) is list: return self.length_formula_pos(v)
                if type(o) is set: return self.truth_set(v)
            return bool(o)
        if isinstance(v, SBool): return v.t
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, SStr): return z3.Length(v.t) > 0
        if isinstance(v, SByt): return z3.Length(v.t) > 0
        if isinstance(v, T): return len(v.items) > 0
        if isinstance(v, (M, It, SuperV)): return True
        if isinstance(v, O):
            p = self.objs[v.addr].pytype
            if isinstance(p, type) and issubclass(p, dict): return self.truth_dict(v)
            if p is list: return self.length_formula_pos(v)
            if p in (set, frozenset): return self.truth_set(v)
            if not isinstance(p, type): raise Unsupported('truth of %r' % p)
            if hasattr(p, '__bool__') or hasattr(p, '__len__'):
                f = getattr(p, '__bool__', None) or getattr(p, '__len__')
                r = self.call(C(f), [v], {})
                return self.truth(r)
            return True
        if isinstance(v, S):
            k = self.kind(v)
            if k.truth is not None:
                return k.truth(self, v) if callable(k.truth) else k.truth
            if k.pytype is dict: return self.truth_dict(v)
            if k.pytype is list: return self.length_formula_pos(v)
            if k.pytype is tuple: return self.tuple_len(v) > 0
            if k.pytype is set: return self.truth_set(v)
            w = self.force(v)
            if not isinstance(w, S): return self.truth(w)
            k = self.kind(w)
            if k.truth is not None: return k.truth(self, w) if callable(k.truth) else k.truth
            if k.pytype in (dict, list, tuple, set): return self.truth(w)
            p = k.pytype
            if p is not None and not hasattr(p, '__bool__') and not hasattr(p, '__len__'): return True
            if any(issubclass(c, type) or c in (types.FunctionType, types.ModuleType, types.CodeType) for c in k.isa): return True
            return pytruth(w.t)
        raise Unsupported('truth of %r' % (v,))

    def truth_dict(self, v):
        d = self.dmap(v)
        if d.base is None:
            return any(x is not ABSENT for k, x in d.writes)
        if any(x is not ABSENT for k, x in d.writes): return True
        return d.array() != EMPTYD

    def truth_set(self, v):
        s = self.sstate(v)
        if any(x for k, x in s.writes): return True
        if s.base is None: return False
        return s.array() != EMPTYS

    def length_formula_pos(self, v):
        l = self.lstate(v)
        if l.items: return True
        if l.n is None: return False
        return l.n > 0

    def is_(self, a, b):
        """identity"""
        if isinstance(a, M) or isinstance(b, M):
            if isinstance(a, M) and isinstance(b, M): raise Unsupported('identity of bound methods')
            return False
        if isinstance(a, It) or isinstance(b, It): return a is b
        if isinstance(a, (C, O)) and isinstance(b, (C, O)):
            if isinstance(a, C) and isinstance(b, C):
                if a.v is b.v: return True
                if type(a.v) is type(b.v) and type(a.v) in (str, int, bytes, tuple, float): return a.v == b.v
                return False
            if isinstance(a, O) and isinstance(b, O): return a.addr == b.addr
            return False
        if isinstance(a, T) and isinstance(b, T):
            if a is b: return True
            if len(a.items) != len(b.items): return False
            return And(*[self.is_(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, T) and isinstance(b, (C, O)) and not (isinstance(b, C) and type(b.v) is tuple): return False
        if isinstance(b, T) and isinstance(a, (C, O)) and not (isinstance(a, C) and type(a.v) is tuple): return False
        f = z3.simplify(term(a) == term(b))
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return f

    def eq(self, a, b):
        """equality as a formula"""
        if isinstance(a, C) and isinstance(b, C) and not isinstance(a.v, (dict, list, set)) and not isinstance(b.v, (dict, list, set)):
            try: return bool(a.v == b.v)
            except Exception: raise Unsupported('host ==')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, O) and isinstance(self.objs[x.addr].pytype, type):
                p = self.objs[x.addr].pytype
                if p is list and self.pytype(y) is list: return self.list_eq(x, y)
                if p is dict and self.pytype(y) is dict: return self.dmap(x).array() == self.dmap(y).array()
                if p in (set, frozenset) and self.pytype(y) in (set, frozenset): return self.sstate(x).array() == self.sstate(y).array()
                if '__eq__' in _mro_dict(p) and p.__module__.startswith('dill'):
                    return self.truth(self.call_method(x, '__eq__', [y]))
        ta, tb = self.pytype(a), self.pytype(b)
        if isinstance(a, (T,)) or isinstance(b, (T,)):
            if isinstance(a, C) and type(a.v) is tuple: a = T([C(x) for x in a.v])
            if isinstance(b, C) and type(b.v) is tuple: b = T([C(x) for x in b.v])
            if isinstance(a, T) and isinstance(b, T):
                if len(a.items) != len(b.items): return False
                return And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
            x, y = (a, b) if isinstance(a, T) else (b, a)
            if self.pytype(y) is tuple and isinstance(y, S):
                n = self.tuple_len(y)
                if not self.ctx.branch(n == len(x.items)): return False
                return And(*[self.eq(p, self.tuple_get(y, i)) for i, p in enumerate(x.items)])
            if self.pytype(y) is not None: return False
        num = (int, bool)
        if ta in num and tb in num: return zint(a) == zint(b)
        if ta is str and tb is str: return zstr(a) == zstr(b)
        if ta is not None and tb is not None and ta is not tb:
            prim = (int, bool, str, bytes, type(None))
            if ta in prim and tb in prim: return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and self.kind(x).eq is not None: return self.kind(x).eq(self, x, y)
        prim = (int, bool, str, bytes, type(None))
        if ta in prim or tb in prim:
            x = b if ta in prim else a
            if isinstance(x, S) and self.kind(x).pytype is None:
                k = self.kind(x)
                f = term(a) == term(b)
                if k.cons == 'ref' and any(issubclass(c, (type, types.FunctionType, types.ModuleType, types.CodeType)) for c in k.isa): return False
                return f if True else None
            if isinstance(x, (S, O)): return False
            return term(a) == term(b)
        f = self.is_(a, b)
        if f is True: return True
        # unknown objects: identity implies equality, otherwise an uninterpreted pure relation
        for x in (a, b):
            p = self.pytype(x)
            if p is not None and isinstance(p, type) and p.__eq__ is object.__eq__: return f
            if isinstance(x, S) and any(c in (type,) or getattr(c, '__eq__', None) is object.__eq__ and c is not object and c in BUILTIN_SOLID for c in self.kind(x).isa): return f
        if isinstance(a, (M, It)) or isinstance(b, (M, It)): return f
        return Or(f, pyeq(term(a), term(b)))

    def list_eq(self, a, b):
        x, y = self.lstate(a), self.lstate(b)
        if x.n is None and y.n is None:
            if len(x.items) != len(y.items): return False
            return And(*[self.eq(p, q) for p, q in zip(x.items, y.items)])
        raise Unsupported('equality of symbolic lists')

    def branch(self, v):
        f = self.truth(v) if isinstance(v, Val) else v
        if f is True or f is False: return f
        return self.ctx.branch(f)

    # ------------------------------------------------------------------ tuples, lists, dicts, sets
    def tuple_len(self, v):
        if isinstance(v, T): return len(v.items)
        if isinstance(v, C): return len(v.v)
        n = tlen(V.rid(v.t)); self.ctx.assume(n >= 0); return n

    def tuple_get(self, v, i):
        if isinstance(v, T): return v.items[i]
        if isinstance(v, C): return C(v.v[i])
        idx = i if not isinstance(i, int) else z3.IntVal(i)
        k = self.kind(v)
        t = telem(V.rid(v.t), idx)
        ek = (k.getitem if isinstance(k.getitem, Kind) else ANY)
        return self.as_kind(t, ek)

    def lstate(self, v):
        if isinstance(v, C) and type(v.v) is list:
            k = host_rid(v.v)
            if k not in self.lists: self.lists[k] = LState([C(x) for x in v.v])
            return self.lists[k]
        k = self.key(v, self.lists)
        if k not in self.lists:
            if isinstance(v, S):
                rid = V.rid(v.t); ep = self.epoch
                n = list0n(ep)(rid); self.ctx.assume(n >= 0)
                kd = self.kind(v); ek = kd.getitem if isinstance(kd.getitem, Kind) else ANY
                e = list0e(ep)
                self.lists[k] = LState([], n, lambda i, rid=rid, ek=ek, e=e: self.as_kind(e(rid, i if not isinstance(i, int) else z3.IntVal(i)), ek))
            else: raise Unsupported('list contents of %r' % (v,))
        return self.lists[k]

    def dmap(self, v):
        if isinstance(v, C) and isinstance(v.v, dict):
            k = host_rid(v.v)
            if k not in self.dicts:
                self.dicts[k] = DMap(None, [(wrap(kk), wrap(x)) for kk, x in list(v.v.items())])
            return self.dicts[k]
        k = self.key(v, self.dicts)
        if k not in self.dicts:
            if isinstance(v, S):
                kd = self.kind(v); kk, vk = kd.dictkinds or (None, None)
                self.dicts[k] = DMap(dict0(self.epoch)(V.rid(v.t)), (), kk, vk)
            elif isinstance(v, O):
                self.dicts[k] = DMap()
            else: raise Unsupported('dict contents of %r' % (v,))
        return self.dicts[k]

    def sstate(self, v):
        if isinstance(v, C) and isinstance(v.v, (set, frozenset)):
            k = host_rid(v.v)
            if k not in self.sets: self.sets[k] = SState(None, [(wrap(x), True) for x in v.v])
            return self.sets[k]
        k = self.key(v, self.sets)
        if k not in self.sets:
            if isinstance(v, S): self.sets[k] = SState(set0(self.epoch)(V.rid(v.t)))
            else: raise Unsupported('set contents of %r' % (v,))
        return self.sets[k]

    def same_key(self, a, b):
        """decide equality of two dict keys on this path"""
        if isinstance(a, C) and isinstance(b, C):
            try: return hash(a.v) == hash(b.v) and bool(a.v == b.v)
            except TypeError: return a.v is b.v
        f = self.is_(a, b)
        if f is True or f is False: return f
        return self.ctx.branch(f)

    def dget(self, v, k):
        """value or ABSENT"""
        d = self.dmap(v)
        return self.dmap_get(d, k)

    def dmap_get(self, d, k):
        self.hashable(k)
        for kk, x in d.writes:
            if isinstance(k, C) and isinstance(kk, C) and self.same_key(kk, k): return x
        for kk, x in d.writes:
            if self.same_key(kk, k): return x
        if d.base is None: return ABSENT
        ov = z3.simplify(z3.Select(d.base, term(k)))
        if self.ctx.branch(OV.is_absent(ov)): return ABSENT
        vk = d.valkind
        if callable(vk) and not isinstance(vk, Kind): vk = vk(self, k)
        return self.as_kind(z3.simplify(OV.val(ov)), vk or ANY)

    def hashable(self, k):
        p = self.pytype(k)
        if p in (list, dict, set): self.raise_(TypeError, C('unhashable type'))

    def dset(self, v, k, x):
        self.hashable(k)
        d = self.dmap(v)
        for i, (kk, old) in enumerate(d.writes):
            if self.same_key(kk, k):
                if old is ABSENT:
                    del d.writes[i]; d.writes.append((k, x))
                else: d.writes[i] = (kk, x)
                self.wrote('dict', v)
                return
        d.writes.append((k, x))
        self.wrote('dict', v)

    def ddel(self, v, k):
        d = self.dmap(v)
        for i, (kk, old) in enumerate(d.writes):
            if self.same_key(kk, k):
                if d.base is None: del d.writes[i]
                else: d.writes[i] = (kk, ABSENT)
                self.wrote('dict', v)
                return
        if d.base is not None: d.writes.append((k, ABSENT)); self.wrote('dict', v)

    def wrote(self, comp, v, name=None):
        if self.written is not None:
            self.written.append((comp, v, name))

    def dict_keys_list(self, v):
        """python list of keys if the domain is known, else None"""
        d = self.dmap(v)
        if d.base is None: return [k for k, x in d.writes if x is not ABSENT]
        return None

    def dict_seq(self, v, what='keys'):
        d = self.dmap(v)
        arr = d.array()
        n = dsize(arr)
        self.ctx.assume(n >= 0)
        def get(i):
            k = self.as_kind(dkey(arr, i if not isinstance(i, int) else z3.IntVal(i)), d.keykind or ANY)
            if what == 'keys': return k
            ov = z3.Select(arr, term(k))
            self.ctx.assume(OV.is_some(ov))
            vk = d.valkind
            if callable(vk) and not isinstance(vk, Kind): vk = vk(self, k)
            x = self.as_kind(OV.val(ov), vk or ANY)
            return x if what == 'values' else T([k, x])
        def facts(nn):
            """contents when the length is nn"""
            ks = [dkey(arr, z3.IntVal(i)) for i in range(nn)]
            a = EMPTYD
            for k in ks:
                a = z3.Store(a, k, z3.Select(arr, k))
                self.ctx.assume(OV.is_some(z3.Select(arr, k)))
            if len(ks) > 1: self.ctx.assume(z3.Distinct(*ks))
            self.ctx.assume(arr == a)
        return Seq(n, get, ('dict', arr, what), facts)

    def set_add(self, v, x):
        self.hashable(x)
        s = self.sstate(v)
        for i, (k, b) in enumerate(s.writes):
            if self.same_key(k, x):
                s.writes[i] = (k, True); return
        s.writes.append((x, True)); self.wrote('set', v)

    def set_del(self, v, x):
        s = self.sstate(v)
        for i, (k, b) in enumerate(s.writes):
            if self.same_key(k, x):
                if s.base is None: del s.writes[i]
                else: s.writes[i] = (k, False)
                return
        if s.base is not None: s.writes.append((x, False))

    def set_has(self, v, x):
        self.hashable(x)
        s = self.sstate(v)
        for k, b in s.writes:
            if self.same_key(k, x): return b
        if s.base is None: return False
        return z3.Select(s.base, term(x))

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """list of values, or Seq"""
        if isinstance(v, T): return list(v.items)
        if isinstance(v, Lazy): return v
        if isinstance(v, It):
            if v.seq is not None: return v.seq
            r = v.items[v.pos:]; v.pos = len(v.items); return r
        if isinstance(v, C):
            o = v.v
            if isinstance(o, (tuple, str, frozenset, range, bytes)): return [C(x) for x in o]
            if isinstance(o, dict): return [k for k in self.dict_keys_list(v)] if self.dmap(v).base is None else self.dict_seq(v)
            if isinstance(o, list): return self.iter_list(v)
            if isinstance(o, set): return self.iter_set(v)
            raise Unsupported('iterate host %r' % type(o))
        if isinstance(v, O):
            p = self.objs[v.addr].pytype
            if p is list: return self.iter_list(v)
            if p in (set, frozenset): return self.iter_set(v)
            if isinstance(p, type) and issubclass(p, dict):
                ks = self.dict_keys_list(v)
                return ks if ks is not None else self.dict_seq(v)
            meta = self.objs[v.addr].meta
            if isinstance(meta, tuple) and meta and meta[0] == 'view':
                return self.iter_view(meta)
            if isinstance(p, type) and '__iter__' in _mro_dict(p):
                return self.iterate(self.call_method(v, '__iter__', []))
            raise Unsupported('iterate %r' % (p,))
        if isinstance(v, (SStr,)):
            n = z3.Length(v.t)
            return Seq(n, lambda i: SStr(z3.SubString(v.t, i, 1)), ('str', v.t))
        if isinstance(v, S):
            k = self.kind(v)
            if k.iter is not None: return k.iter(self, v)
            w = self.force(v)
            if not isinstance(w, S): return self.iterate(w)
            k = self.kind(w)
            if k.iter is not None: return k.iter(self, w)
            if k.pytype is tuple: return self.tuple_seq(w)
            if k.pytype is list: return self.iter_list(w)
            if k.pytype is dict: return self.dict_seq(w) if self.dmap(w).base is not None else self.dict_keys_list(w)
            if k.pytype is set: return self.iter_set(w)
        if isinstance(v, (SInt, SBool)) or v is NONE: self.raise_(TypeError, C('not iterable'))
        raise Unsupported('iterate %r kind %r' % (v, self.kind(v)))

    def tuple_seq(self, v):
        n = self.tuple_len(v)
        return Seq(n, lambda i: self.tuple_get(v, i), ('tuple', v.t))

    def iter_list(self, v):
        l = self.lstate(v)
        if l.n is None: return list(l.items)
        if l.items:
            items = list(l.items); n0 = l.n; g = l.get
            def get(i):
                if isinstance(i, int): i = z3.IntVal(i)
                if g is not None and self.ctx.branch(i < n0): return g(i)
                for j in range(len(items) - 1):
                    if self.ctx.branch(i == n0 + j): return items[j]
                return items[-1]
            return Seq(l.n + len(items), get, ('list', v))
        return Seq(l.n, l.get, ('list', v))

    def iter_set(self, v):
        s = self.sstate(v)
        if s.base is None: return [k for k, b in s.writes if b]
        return Seq(self.ctx.fresh('setlen', I), None, ('set', v))

    def iter_view(self, meta):
        _, what, d = meta
        ks = self.dict_keys_list(d)
        if ks is None: return self.dict_seq(d, what)
        if what == 'keys': return ks
        out = []
        for k in ks:
            x = self.dget(d, k)
            out.append(x if what == 'values' else T([k, x]))
        return out

    def finite(self, v, what=''):
        """list of values; a symbolic sequence is enumerated up to the bound (marks the path bounded)"""
        it = self.iterate(v) if isinstance(v, Val) else v
        if isinstance(it, list): return it
        if it.get is None: raise Unsupported('unbounded iteration over %s' % (it.src[0],))
        # exact length known?
        n = it.n
        for j in range(self.ctx.cfg.unroll + 1):
            if self.ctx.branch(n == j if not isinstance(n, int) else n == j):
                if it.facts: it.facts(j)
                return [it.get(i) for i in range(j)]
        self.ctx.res.cut += 1
        raise PathEnd('loop bound')

    # ------------------------------------------------------------------ attributes
    def getattr(self, v, name, default=None):
        """attribute lookup; raises AttributeError in the program, unless default is given"""
        r = self.lookup_attr(v, name)
        if r is ABSENT:
            if default is not None: return default
            self.raise_(AttributeError, C('no attribute %s' % name))
        return r

    def overlay_attr(self, v, name):
        """overlaid attribute value, ABSENT, or None if not overlaid"""
        if not self.attrs: return None
        if isinstance(v, (O, C)):
            k = self.key(v)
            return self.attrs.get(k, {}).get(name)
        if isinstance(v, S):
            comp = {k: x for k, x in self.attrs.items() if name in x and not (isinstance(k, int) and k >= OLD_MAX and self.kind(v).cons == 'ref' and self.ctx.quick(z3.simplify(V.rid(v.t) < OLD_MAX)) is not False and self._isold(v))}
            if not comp: return None
            k = self.key(v, comp)
            return self.attrs.get(k, {}).get(name)
        return None

    def _isold(self, v):
        return self.ctx.quick(z3.simplify(V.rid(v.t) < OLD_MAX)) is True or self.ctx.must(V.rid(v.t) < OLD_MAX)

    def lookup_attr(self, v, name):
        h = self.env.attr_hooks.get(name)
        if h is not None:
            r = h(self, v)
            if r is not None: return r
        x = self.overlay_attr(v, name)
        if x is not None: return x
        if isinstance(v, C): return self.host_attr(v, name)
        if isinstance(v, O): return self.obj_attr(v, name)
        if isinstance(v, S): return self.sym_attr(v, name)
        if isinstance(v, SuperV):
            mro = v.cls.__mro__ if self.pytype(v.self) is None else self.pytype(v.self).__mro__
            i = mro.index(v.cls) if v.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind_attr(c.__dict__[name], v.self, C(self.pytype(v.self)) if self.pytype(v.self) else None)
            return ABSENT
        p = self.pytype(v)
        if isinstance(v, M):
            if name == '__self__': return v.self
            if name == '__name__': return C(v.name)
            if name == '__func__' and v.func is not None: return v.func
        if name == '__class__' and p is not None: return C(p)
        if p is not None and hasattr(p, name):
            if name == '__doc__': return C(p.__doc__)
            return M(v, name)
        return ABSENT

    def bind_attr(self, raw, selfv, clsv):
        """bind a raw class attribute to an instance value"""
        if isinstance(raw, types.FunctionType): return M(selfv, raw.__name__, C(raw))
        if isinstance(raw, property):
            return self.call(C(raw.fget), [selfv], {})
        if isinstance(raw, staticmethod): return C(raw.__func__)
        if isinstance(raw, classmethod): return M(clsv, raw.__func__.__name__, C(raw.__func__))
        if isinstance(raw, (types.MethodDescriptorType, types.WrapperDescriptorType)): return M(selfv, raw.__name__, C(raw))
        if isinstance(raw, (types.GetSetDescriptorType, types.MemberDescriptorType)): return None
        return C(raw)

    def host_attr(self, v, name):
        o = v.v
        if name == '__dict__' and isinstance(o, types.ModuleType): return C(o.__dict__)
        if isinstance(o, (dict, list, set)) or isinstance(o, (str, int, tuple, bytes, float)) and not isinstance(o, type):
            if name == '__class__': return C(type(o))
            if hasattr(type(o), name):
                raw = _mro_dict(type(o)).get(name)
                return M(v, name, C(raw) if isinstance(raw, types.FunctionType) else None)
            return ABSENT
        if isinstance(o, types.ModuleType):
            d = self.dicts.get(host_rid(o.__dict__))
            if d is not None:
                x = self.dmap_get(d, C(name))
                if x is not ABSENT: return x
                if name in o.__dict__: return ABSENT
        try:
            r = getattr(o, name)
        except AttributeError:
            return ABSENT
        except Exception as e:
            raise Unsupported('host attribute %s' % name)
        if isinstance(r, types.MethodType) and r.__self__ is o and isinstance(r.__func__, types.FunctionType) and not isinstance(o, type):
            return M(v, name, C(r.__func__))
        if isinstance(r, types.MethodType) and r.__self__ is o: return M(v, name, C(r.__func__))
        if isinstance(r, (types.BuiltinMethodType, types.MethodWrapperType)) and not isinstance(o, types.ModuleType) and getattr(r, '__self__', None) is o:
            return M(v, name, None)
        return wrap(r)

    def obj_attr(self, v, name):
        ob = self.objs[v.addr]; p = ob.pytype
        if name == '__class__': return C(p) if isinstance(p, type) else p
        if name == '__dict__' and ('dictof' in (ob.meta if isinstance(ob.meta, dict) else {})): return ob.meta['dictof']
        if isinstance(ob.meta, Closure):
            c = ob.meta
            if name in ('__name__',): return C(c.name)
            if name == '__qualname__': return C(c.qual)
            if name == '__module__': return C(c.module.__name__)
            if name == '__globals__': return C(c.module.__dict__)
            if name == '__dict__': return self.new_dict()
            if name == '__closure__':
                free = sorted({n.id for n in ast.walk(c.node) if isinstance(n, ast.Name)} | {x for n in ast.walk(c.node) if isinstance(n, ast.Nonlocal) for x in n.names})
                own = c.node.__dict__.get('_scope') or scope_of(c.node)
                cells = []
                for nm in free:
                    if nm in own[0] and nm not in own[2]: continue
                    f = c.frame
                    while f is not None and not (nm in f.locals and nm not in f.nonlocals): f = f.parent
                    if f is None or f.fn is None: continue
                    if nm not in f.extra:
                        cell = self.alloc(types.CellType)
                        self.attrs[cell.addr] = {'cell_contents': f.vars.get(nm, ABSENT)}
                        f.extra[nm] = cell
                    cells.append(f.extra[nm])
                return T(cells) if cells else NONE
        if not isinstance(p, type): raise Unsupported('attribute %s of %r' % (name, p))
        if issubclass(p, BaseException) and name in ('args', '__traceback__'): return self.attrs.get(v.addr, {}).get(name, ABSENT)
        for c in p.__mro__:
            if name in c.__dict__:
                raw = c.__dict__[name]
                r = self.bind_attr(raw, v, C(p))
                if r is None: break
                return r
        h = self.env.obj_attr_models.get(p)
        if h is not None:
            r = h(self, v, name)
            if r is not None: return r
        if name == '__dict__' and p.__module__.startswith('dill'):
            raise Unsupported('instance __dict__')
        ga = _mro_dict(p).get('__getattr__')
        if isinstance(ga, types.FunctionType):
            return self.call(C(ga), [v, C(name)], {})
        return ABSENT

    def sym_attr(self, v, name):
        k = self.kind(v)
        if k.cons in ('any', None) or isinstance(k, OneOf):
            w = self.force(v)
            if not isinstance(w, S): return self.lookup_attr(w, name)
            k = self.kind(w)
        if name == '__class__' and '__class__' not in k.attrs: return self.type_val(v)
        a = k.attrs.get(name)
        if a is not None:
            if isinstance(a, Val): return a
            if isinstance(a, Opt):
                if not self.ctx.branch(attr_has(name, self.epoch)(V.rid(v.t))): return ABSENT
                a = a.kind
                if isinstance(a, Val): return a
            if isinstance(a, Kind):
                return self.as_kind(attr_val(name, self.epoch)(V.rid(v.t)), a)
            if a is ABSENT: return ABSENT
            return a(self, v)
        if name in k.methods: return M(v, name, None)
        if k.pytype is not None and hasattr(k.pytype, name):
            for c in k.pytype.__mro__:
                if name in c.__dict__:
                    raw = c.__dict__[name]
                    if isinstance(raw, types.FunctionType): return M(v, name, C(raw))
                    if isinstance(raw, (types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType)): return M(v, name, None)
                    if isinstance(raw, (types.GetSetDescriptorType, types.MemberDescriptorType, property)): break
                    if isinstance(raw, (staticmethod, classmethod)): break
                    return C(raw)
            return self.as_kind(attr_val(name, self.epoch)(V.rid(v.t)), ANY)
        for c in k.isa:
            if c is not object and c is not type and hasattr(c, name):
                for cc in c.__mro__:
                    if name in cc.__dict__:
                        raw = cc.__dict__[name]
                        if isinstance(raw, types.FunctionType) and c.__module__.startswith('dill'): return M(v, name, C(raw))
                if callable(getattr(c, name)) and not isinstance(getattr(c, name), property): return M(v, name, None)
        if k.pytype is not None and not k.open: return ABSENT
        if k.open or name.startswith('__'):
            if not self.ctx.branch(attr_has(name, self.epoch)(V.rid(v.t))): return ABSENT
            return self.as_kind(attr_val(name, self.epoch)(V.rid(v.t)), ANY)
        return ABSENT

    def setattr(self, v, name, x):
        if isinstance(v, S):
            k = self.kind(v)
            if k.setattr is not None:
                if k.setattr(self, v, name, x): return
        if isinstance(v, (SStr, SInt, SBool, SByt, T, M)): self.raise_(AttributeError, C(name))
        if isinstance(v, O):
            p = self.objs[v.addr].pytype
            if isinstance(p, type):
                for c in p.__mro__:
                    raw = c.__dict__.get(name)
                    if isinstance(raw, property):
                        if raw.fset is None: self.raise_(AttributeError, C(name))
                        self.call(C(raw.fset), [v, x], {}); return
                sa = _mro_dict(p).get('__setattr__')
                if isinstance(sa, types.FunctionType) and sa.__module__ and sa.__module__.startswith('dill'):
                    self.call(C(sa), [v, C(name), x], {}); return
        if isinstance(v, C) and isinstance(v.v, types.ModuleType):
            d = self.dicts.get(host_rid(v.v.__dict__))
            if d is not None: self.dset(C(v.v.__dict__), C(name), x); return
        k = self.key(v, self.attrs, True)
        self.attrs.setdefault(k, {})[name] = x
        self.wrote('attr', v, name)
        self.trace_attr(v, name, x)

    def trace_attr(self, v, name, x):
        if self.on_attr_write: self.on_attr_write(v, name, x)

    def delattr(self, v, name):
        if not (name == 'cell_contents' and self.pytype(v) is types.CellType) and self.lookup_attr(v, name) is ABSENT:
            self.raise_(AttributeError, C(name))
        k = self.key(v, self.attrs, True)
        self.attrs.setdefault(k, {})[name] = ABSENT
        self.wrote('attr', v, name)

    # ------------------------------------------------------------------ calls
    def call_method(self, v, name, args, kwargs=None):
        return self.call(self.getattr(v, name), args, kwargs or {})

    def call(self, f, args, kwargs, kwrest=None):
        if isinstance(f, M):
            k = self.kind(f.self) if isinstance(f.self, S) else None
            if k is not None and f.name in k.methods:
                return self._kwr(kwrest, lambda kw: k.methods[f.name](self, f.self, args, dict(kwargs, **kw)))
            if f.func is not None:
                return self.call(f.func, [f.self] + list(args), kwargs, kwrest)
            return self._kwr(kwrest, lambda kw: self.env.call_builtin_method(self, f.self, f.name, list(args), dict(kwargs, **kw)))
        if isinstance(f, C):
            return self.call_host(f.v, list(args), kwargs, kwrest)
        if isinstance(f, O):
            ob = self.objs[f.addr]
            if isinstance(ob.meta, Closure): return self.call_closure(ob.meta, list(args), kwargs, kwrest, fobj=f)
            if callable(ob.meta) and not isinstance(ob.meta, type):
                return self._kwr(kwrest, lambda kw: ob.meta(self, list(args), dict(kwargs, **kw)))
            if isinstance(ob.pytype, type) and '__call__' in _mro_dict(ob.pytype):
                return self.call(C(_mro_dict(ob.pytype)['__call__']), [f] + list(args), kwargs, kwrest)
            raise Unsupported('call of %r' % (ob.pytype,))
        if isinstance(f, S):
            k = self.kind(f)
            if k.call is not None:
                return self._kwr(kwrest, lambda kw: k.call(self, f, list(args), dict(kwargs, **kw)))
            w = self.force(f)
            if isinstance(w, S) and self.kind(w).call is not None:
                return self._kwr(kwrest, lambda kw: self.kind(w).call(self, f, list(args), dict(kwargs, **kw)))
            if not isinstance(w, S): return self.call(w, args, kwargs, kwrest)
            return self.env.call_opaque(self, f, list(args), kwargs, kwrest)
        raise Unsupported('call of %r' % (f,))

    def _kwr(self, kwrest, fn):
        if kwrest is None: return fn({})
        return fn({'**': kwrest})

    def call_host(self, o, args, kwargs, kwrest):
        env = self.env
        r = self.overrides.get(host_rid(o))
        if r is not None:
            return self._kwr(kwrest, lambda kw: r(self, args, dict(kwargs, **kw)))
        if isinstance(o, types.FunctionType):
            ct = env.contract_for(o)
            if ct is not None and not self.no_contracts and o is not self.ghost.get('target'):
                self.ctx.res.contracts_used.add(ct.name)
                return self._kwr(kwrest, lambda kw: ct.apply(self, args, dict(kwargs, **kw)))
        mdl = env.model_for(o)
        if mdl is not None:
            return self._kwr(kwrest, lambda kw: mdl(self, args, dict(kwargs, **kw)))
        if isinstance(o, types.FunctionType):
            wrapped = getattr(o, '__wrapped__', None)
            if wrapped is not None and _is_ctxmgr(o):
                node = env.source.node_of(wrapped.__code__)
                if node is not None:
                    # a generator-based context manager: remember the call; the with statement runs it
                    cm = self.alloc(_GenCM, ('gencm', wrapped, args, kwargs, kwrest))
                    return cm
            node = env.source.node_of(o.__code__)
            if node is not None:
                mod = sys.modules.get(o.__module__)
                if mod is None or o.__globals__ is not mod.__dict__: raise Unsupported('globals of %s' % o.__name__)
                c = Closure(node, None, [wrap(x) for x in (o.__defaults__ or ())], {k: wrap(x) for k, x in (o.__kwdefaults__ or {}).items()}, mod, o.__name__, qual=o.__qualname__)
                if o.__closure__:
                    fr = Frame(None, mod, None)
                    for nm, cell in zip(o.__code__.co_freevars, o.__closure__):
                        try: fr.vars[nm] = wrap(cell.cell_contents)
                        except ValueError: pass
                        fr.locals.add(nm)
                    c.frame = fr
                return self.call_closure(c, args, kwargs, kwrest, host=o)
            raise Unsupported('external function %s.%s' % (o.__module__, o.__qualname__))
        if isinstance(o, types.MethodType):
            return self.call(wrap(o.__func__), [wrap(o.__self__)] + args, kwargs, kwrest)
        if isinstance(o, type):
            return self.instantiate(o, args, kwargs, kwrest)
        if isinstance(o, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args:
            return self._kwr(kwrest, lambda kw: env.call_builtin_method(self, args[0], o.__name__, args[1:], dict(kwargs, **kw), owner=o.__objclass__))
        if isinstance(o, (operator.attrgetter, operator.itemgetter)): raise Unsupported('operator object')
        cl = _mro_dict(type(o)).get('__call__')
        if isinstance(cl, types.FunctionType) and env.source.node_of(cl.__code__) is not None:
            return self.call(C(cl), [C(o)] + args, kwargs, kwrest)
        if isinstance(o, types.BuiltinMethodType) and getattr(o, '__self__', None) is not None and not isinstance(o.__self__, types.ModuleType):
            return self._kwr(kwrest, lambda kw: env.call_builtin_method(self, wrap(o.__self__), o.__name__, args, dict(kwargs, **kw)))
        if kwrest is None and env.is_pure(o) and all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kwargs.values()):
            try: return wrap(o(*[concrete(a) for a in args], **{k: concrete(a) for k, a in kwargs.items()}))
            except Exception as e: self.raise_(type(e), *[C(x) for x in e.args])
        raise Unsupported('call of host %r' % (getattr(o, '__qualname__', None) or type(o),))

    def instantiate(self, cls, args, kwargs, kwrest):
        if issubclass(cls, BaseException) and not isinstance(_mro_dict(cls).get('__init__'), types.FunctionType):
            return self.mkexc(cls, *args)
        if not str(cls.__module__).startswith('dill'): raise Unsupported('instantiate %s' % cls.__name__)
        d = _mro_dict(cls)
        new = d.get('__new__')
        if isinstance(new, staticmethod): new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call(C(new), [C(cls)] + list(args), kwargs, kwrest)
            if not (isinstance(o, O) and isinstance(self.objs[o.addr].pytype, type) and issubclass(self.objs[o.addr].pytype, cls)): return o
        else:
            o = self.alloc(cls)
        ini = d.get('__init__')
        if isinstance(ini, types.FunctionType):
            self.call(C(ini), [o] + list(args), kwargs, kwrest)
        elif issubclass(cls, dict):
            if args: self.env.call_builtin_method(self, o, 'update', list(args), dict(kwargs))
        return o

    def call_closure(self, c, args, kwargs, kwrest=None, fobj=None, host=None):
        self.depth += 1
        if self.depth > 40: self.depth -= 1; raise Unsupported('inlining depth')
        try:
            fr = Frame(c.frame, c.module, c)
            self.ctx.res.functions.add('%s:%s' % (c.module.__name__, c.qual))
            node = c.node
            self.bind(c, fr, args, kwargs, kwrest)
            if isinstance(node, ast.Lambda): return self.eval(node.body, fr)
            if self.is_generator(node):
                if self.env.eager_generators:
                    out = []
                    fr.on_yield = lambda v: out.append(v) or NONE
                    try: self.exec_body(node.body, fr)
                    except ReturnExc: pass
                    return It(out)
                raise Unsupported('generator %s' % c.name)
            try:
                self.exec_body(node.body, fr)
            except ReturnExc as r:
                return r.val
            return NONE
        finally:
            self.depth -= 1

    def is_generator(self, node):
        g = getattr(node, '_gen', None)
        if g is None:
            g = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))
            node._gen = g
        return g

    def bind(self, c, fr, args, kwargs, kwrest):
        a = c.node.args
        info = getattr(c.node, '_scope', None)
        if info is None:
            info = c.node._scope = scope_of(c.node)
        fr.locals, fr.globals_decl, fr.nonlocals = info
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = fr.vars
        if isinstance(args, list) and args and isinstance(args[-1], _StarSeq):
            star = args[-1]; args = args[:-1]
        else: star = None
        kwargs = dict(kwargs)
        if '**' in kwargs: kwrest = kwargs.pop('**')
        for p, x in zip(pos, args): vals[p] = x
        extra = list(args[len(pos):])
        if star is not None:
            if len(args) >= len(pos) and a.vararg and not extra: vals[a.vararg.arg] = star.val
            else: raise Unsupported('symbolic star argument')
        elif a.vararg: vals[a.vararg.arg] = T(extra)
        elif extra: self.raise_(TypeError, C('too many positional arguments'))
        kwonly = [p.arg for p in a.kwonlyargs]
        posonly = {p.arg for p in a.posonlyargs}
        rest = {}
        for n, x in kwargs.items():
            if (n in pos and n not in posonly) or n in kwonly:
                if n in vals: self.raise_(TypeError, C('multiple values'))
                vals[n] = x
            elif a.kwarg: rest[n] = x
            else: self.raise_(TypeError, C('unexpected keyword %s' % n))
        restmap = None
        if kwrest is not None:
            restmap = kwrest.copy()
            for n in [p for p in pos if p not in posonly] + kwonly:
                if n in vals:
                    # a named parameter already bound cannot also be in the rest (else TypeError)
                    x = self.dmap_get(restmap, C(n))
                    if x is not ABSENT: self.raise_(TypeError, C('multiple values for %s' % n))
                else:
                    x = self.dmap_get(restmap, C(n))
                    if x is not ABSENT:
                        vals[n] = x
                        self._dm_del(restmap, C(n))
            if not a.kwarg:
                if self.ctx.branch(restmap.array() != EMPTYD): self.raise_(TypeError, C('unexpected keyword'))
        nd = len(c.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j < 0: self.raise_(TypeError, C('missing argument %s' % p))
                vals[p] = c.defaults[j]
        for p in kwonly:
            if p not in vals:
                if p not in c.kwdefaults: self.raise_(TypeError, C('missing keyword %s' % p))
                vals[p] = c.kwdefaults[p]
        if a.kwarg:
            d = self.alloc(dict)
            dm = restmap if restmap is not None else DMap()
            for n, x in rest.items():
                if dm.base is not None:
                    y = self.dmap_get(dm, C(n))
                    if y is not ABSENT: self.raise_(TypeError, C('multiple values for %s' % n))
                dm.writes = [(k, v) for k, v in dm.writes if not (isinstance(k, C) and k.v == n)] + [(C(n), x)]
            self.dicts[d.addr] = dm
            vals[a.kwarg.arg] = d

    def _dm_del(self, dm, k):
        for i, (kk, x) in enumerate(dm.writes):
            if isinstance(kk, C) and kk.v == k.v:
                dm.writes[i] = (kk, ABSENT); return
        dm.writes.append((k, ABSENT))

    # ------------------------------------------------------------------ names
    def load_name(self, name, fr):
        f = fr
        if name in fr.globals_decl: return self.load_global(name, fr)
        first = True
        while f is not None:
            if name in f.locals and not (f is fr and name in f.nonlocals):
                if name in f.vars: return f.vars[name]
                self.raise_(UnboundLocalError if f is fr else NameError, C(name))
            f = f.parent
        return self.load_global(name, fr)

    def load_global(self, name, fr):
        g = C(fr.module)
        x = self.overlay_attr(g, name)
        if x is not None and x is not ABSENT: return x
        d = self.dicts.get(host_rid(fr.module.__dict__))
        if d is not None:
            x = self.dmap_get(d, C(name))
            if x is not ABSENT: return x
        elif name in fr.module.__dict__: return wrap(fr.module.__dict__[name])
        if hasattr(builtins, name): return wrap(getattr(builtins, name))
        self.raise_(NameError, C(name))

    def store_name(self, name, val, fr):
        if name in fr.globals_decl:
            self.setattr(C(fr.module), name, val); return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals: f.vars[name] = val; return
                f = f.parent
        fr.vars[name] = val

    # ------------------------------------------------------------------ statements
    def exec_body(self, stmts, fr):
        for s in stmts:
            self.ctx.res.lines.add((getattr(fr.fn.node, '_file', ''), s.lineno) if fr.fn is not None else ('', s.lineno))
            getattr(self, 'st_' + type(s).__name__, self.st_unsupported)(s, fr)

    def st_unsupported(self, s, fr): raise Unsupported('statement %s line %d' % (type(s).__name__, s.lineno))

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value, fr)
    def st_Pass(self, s, fr): pass
    def st_Break(self, s, fr): raise BreakExc()
    def st_Continue(self, s, fr): raise ContinueExc()
    def st_Global(self, s, fr): pass
    def st_Nonlocal(self, s, fr): pass
    def st_Return(self, s, fr): raise ReturnExc(self.eval(s.value, fr) if s.value is not None else NONE)

    def st_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            self.store_name(t.id, self.binop(s.op, cur, self.eval(s.value, fr), inplace=True), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, self.mangle(t.attr, fr))
            self.setattr(o, self.mangle(t.attr, fr), self.binop(s.op, cur, self.eval(s.value, fr), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr); i = self.eval(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(s.op, cur, self.eval(s.value, fr), inplace=True))
        else: raise Unsupported('augassign')

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = fr.fn.qual.split('.') if fr.fn else []
            if len(c) > 1 and c[-2] != '<locals>': return '_%s%s' % (c[-2].lstrip('_'), name)
        return name

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(t.elts[-1], ast.Starred) and not any(isinstance(e, ast.Starred) for e in t.elts[:-1]):
                it = self.iterate(v); k = len(t.elts) - 1
                if isinstance(it, Seq) and it.get is not None:
                    if not self.ctx.branch(it.n >= k): self.raise_(ValueError, C('unpack'))
                    for i, e in enumerate(t.elts[:-1]): self.assign(e, it.get(i), fr)
                    o = self.alloc(list)
                    self.lists[o.addr] = LState([], z3.simplify(it.n - k), lambda i, g=it.get: g(i + k), None)
                    self.assign(t.elts[-1].value, o, fr)
                    return
                v = T(it) if isinstance(it, list) else v
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]; after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1: self.raise_(ValueError, C('unpack'))
                for e, x in zip(t.elts[:i], items): self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.new_list(items[i:len(items) - after]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:] if after else []): self.assign(e, x, fr)
            else:
                if len(items) != len(t.elts): self.raise_(ValueError, C('unpack'))
                for e, x in zip(t.elts, items): self.assign(e, x, fr)
        else: raise Unsupported('assign to %s' % type(t).__name__)

    def unpack(self, v, n, star=False):
        it = self.iterate(v)
        if isinstance(it, list): return it
        if star: return self.finite(it)
        if self.ctx.branch(it.n == n):
            return [it.get(i) for i in range(n)]
        self.raise_(ValueError, C('unpack'))

    def st_Delete(self, s, fr):
        for t in s.targets: self.del_target(t, fr)

    def del_target(self, t, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl: self.delattr(C(fr.module), t.id); return
            if t.id not in fr.vars: self.raise_(UnboundLocalError, C(t.id))
            del fr.vars[t.id]
        elif isinstance(t, ast.Attribute): self.delattr(self.eval(t.value, fr), self.mangle(t.attr, fr))
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: self.del_target(e, fr)
        else: raise Unsupported('del')

    def st_If(self, s, fr):
        if self.branch(self.eval(s.test, fr)): self.exec_body(s.body, fr)
        else: self.exec_body(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.branch(self.eval(s.test, fr)):
            self.raise_(AssertionError, *([self.eval(s.msg, fr)] if s.msg else []))

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack: self.raise_(RuntimeError, C('No active exception'))
            raise PyRaise(self.exc_stack[-1])
        e = self.eval(s.exc, fr)
        if isinstance(e, C) and isinstance(e.v, type) and issubclass(e.v, BaseException): e = self.mkexc(e.v)
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            if isinstance(e, O): self.attrs.setdefault(e.addr, {})['__cause__'] = c
        raise PyRaise(e)

    def st_Try(self, s, fr):
        try:
            try:
                self.exec_body(s.body, fr)
            except PyRaise as r:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(r.val, self.eval(h.type, fr)):
                        if h.name: fr.vars[h.name] = r.val
                        self.exc_stack.append(r.val)
                        try: self.exec_body(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                            if h.name: fr.vars.pop(h.name, None)
                        break
                else: raise
            else:
                self.exec_body(s.orelse, fr)
        except (PyRaise, ReturnExc, BreakExc, ContinueExc) as r:
            if s.finalbody:
                if isinstance(r, PyRaise): self.exc_stack.append(r.val)
                try: self.exec_body(s.finalbody, fr)
                finally:
                    if isinstance(r, PyRaise): self.exc_stack.pop()
            raise
        else:
            self.exec_body(s.finalbody, fr)

    def exc_matches(self, e, cls):
        if isinstance(cls, T): return any(self.exc_matches(e, c) for c in cls.items)
        if isinstance(cls, C) and isinstance(cls.v, tuple): return any(self.exc_matches(e, C(c)) for c in cls.v)
        if isinstance(cls, C) and isinstance(cls.v, type):
            f = self.isinst_formula(e, cls.v)
            return self.ctx.branch(f) if not isinstance(f, bool) else f
        raise Unsupported('except clause')

    def st_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items: self.exec_body(body, fr); return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        def run(v):
            if it.optional_vars is not None: self.assign(it.optional_vars, v, fr)
            self.with_items(items[1:], body, fr)
        self.run_cm(cm, run)

    def run_cm(self, cm, run):
        """execute run(value) inside the context manager cm"""
        if isinstance(cm, O) and isinstance(self.objs[cm.addr].meta, tuple) and self.objs[cm.addr].meta[:1] == ('gencm',):
            _, o, args, kwargs, kwrest = self.objs[cm.addr].meta
            node = self.env.source.node_of(o.__code__)
            mod = sys.modules[o.__module__]
            c = Closure(node, None, [wrap(x) for x in (o.__defaults__ or ())], {k: wrap(x) for k, x in (o.__kwdefaults__ or {}).items()}, mod, o.__name__, qual=o.__qualname__)
            g = Frame(None, mod, c)
            self.ctx.res.functions.add('%s:%s' % (mod.__name__, o.__qualname__))
            self.bind(c, g, args, kwargs, kwrest)
            state = {'ctl': None, 'n': 0}
            def on_yield(v):
                state['n'] += 1
                if state['n'] > 1: raise Unsupported('generator context manager yields twice')
                try: run(v)
                except (ReturnExc, BreakExc, ContinueExc) as c_: state['ctl'] = c_
                return NONE
            g.on_yield = on_yield
            try: self.exec_body(node.body, g)
            except ReturnExc: pass
            if state['ctl'] is not None: raise state['ctl']
            return
        ent = self.getattr(cm, '__enter__'); ext = self.getattr(cm, '__exit__')
        v = self.call(ent, [], {})
        try:
            run(v)
        except PyRaise as r:
            self.exc_stack.append(r.val)
            try: x = self.call(ext, [self.type_val(r.val), r.val, NONE], {})
            finally: self.exc_stack.pop()
            if not self.branch(x): raise
        except (ReturnExc, BreakExc, ContinueExc):
            self.call(ext, [NONE, NONE, NONE], {})
            raise
        else:
            self.call(ext, [NONE, NONE, NONE], {})

    def st_While(self, s, fr):
        spec = self.find_loopspec(s, fr)
        if spec is not None:
            return spec.run_while(self, s, fr)
        n = 0; heads = []; lz = self.ghost.get('lasso')
        while True:
            if lz is not None: self.lasso(heads, s, fr, lz)
            if not self.branch(self.eval(s.test, fr)):
                self.exec_body(s.orelse, fr); return
            n += 1
            if lz is None and n > self.ctx.cfg.unroll + self.env.while_extra:
                self.ctx.res.cut += 1
                raise PathEnd('while bound')
            try: self.exec_body(s.body, fr)
            except BreakExc: return
            except ContinueExc: pass

    def lasso(self, heads, s, fr, lazy, limit=40):
        """end the path if the state at this loop head was met before on this path"""
        live = live_at_head(s, fr.fn.node if fr.fn is not None else None)
        if not heads: heads.append(self.next_addr)      # objects made in the loop are reachable only through live locals or older objects
        for n, x in list(fr.vars.items()):
            if isinstance(x, SBool) and (live is None or n in live): fr.vars[n] = C(self.ctx.branch(x.t))
        k = (tuple(sorted((n, valkey(x)) for n, x in fr.vars.items() if live is None or n in live)), self.heap_key(heads), len(self.trace), lazy.ghost(self))
        if k in heads: raise PathEnd('the loop state repeats')
        heads.append(k)
        if len(heads) > limit: raise Unsupported('the loop has no finite set of states')

    def heap_key(self, heads):
        out = []
        for name, comp in (('d', self.dicts), ('l', self.lists), ('s', self.sets), ('a', self.attrs)):
            for a, st in comp.items():
                if name == 'a': out.append((name, a, tuple(sorted((n, valkey(x)) for n, x in st.items()))))
                elif name == 'd': out.append((name, a, st.base.get_id() if st.base is not None else 0, tuple((valkey(q), valkey(x)) for q, x in st.writes)))
                elif name == 'l': out.append((name, a, tuple(valkey(x) for x in st.items), valkey(st.n) if isinstance(st.n, Val) else st.n if st.n is None or isinstance(st.n, int) else st.n.get_id()))
                else: out.append((name, a, st.base.get_id() if st.base is not None else 0, tuple((valkey(q), bool(x)) for q, x in st.writes)))
        return tuple(sorted((x for x in out if not isinstance(x[1], int) or x[1] < heads[0] or x[1] not in self.objs), key=repr))

    def find_loopspec(self, s, fr):
        name = fr.fn.qual if fr.fn else ''
        for sp in self.loopspecs.get(name, ()) or self.loopspecs.get(name.split('.')[-1], ()):
            if sp.matches(self, s, fr): return sp
        return None

    def st_For(self, s, fr):
        v = self.eval(s.iter, fr)
        it = self.iterate(v)
        if isinstance(it, Lazy):
            heads = []
            while True:
                self.lasso(heads, s, fr, it)
                x = it.next(self)
                if x is ABSENT: break
                self.assign(s.target, x, fr)
                try: self.exec_body(s.body, fr)
                except BreakExc: return
                except ContinueExc: pass
            self.exec_body(s.orelse, fr); return
        if isinstance(it, Seq):
            spec = self.find_loopspec(s, fr)
            if spec is not None: return spec.run_for(self, s, fr, it)
            it = self.finite(it)
        live = isinstance(v, (O, C, S)) and self.pytype(v) is list
        i = 0
        while True:
            if live:
                l = self.lstate(v)
                if l.n is None: it = l.items
            if i >= len(it): break
            x = it[i]; i += 1
            self.assign(s.target, x, fr)
            try: self.exec_body(s.body, fr)
            except BreakExc: return
            except ContinueExc: pass
        self.exec_body(s.orelse, fr)

    def st_FunctionDef(self, s, fr):
        f = self.make_function(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.store_name(s.name, f, fr)

    def make_function(self, node, fr, name):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        o = self.alloc(types.FunctionType, None, name)
        q = (fr.fn.qual + '.<locals>.' + name) if fr.fn else name
        c = Closure(node, fr, defaults, kwd, fr.module, name, qual=q)
        self.objs[o.addr].meta = c
        return o

    def st_Import(self, s, fr):
        for a in s.names:
            try: mod = __import__(a.name)
            except ImportError: self.raise_(ImportError, C(a.name))
            if a.asname:
                mod = sys.modules[a.name]
                self.store_name(a.asname, C(mod), fr)
            else: self.store_name(a.name.split('.')[0], C(mod), fr)

    def st_ImportFrom(self, s, fr):
        import importlib
        name = s.module or ''
        if s.level:
            pkg = fr.module.__package__
            base = pkg.rsplit('.', s.level - 1)[0] if s.level > 1 else pkg
            name = base + ('.' + name if name else '')
        try: mod = importlib.import_module(name)
        except ImportError: self.raise_(ImportError, C(name))
        for a in s.names:
            if a.name == '*': raise Unsupported('import *')
            x = self.lookup_attr(C(mod), a.name)
            if x is ABSENT:
                try: x = C(importlib.import_module(name + '.' + a.name))
                except ImportError: self.raise_(ImportError, C(a.name))
            self.store_name(a.asname or a.name, x, fr)

    def st_ClassDef(self, s, fr): raise Unsupported('class statement')

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        return getattr(self, 'ex_' + type(e).__name__, self.ex_unsupported)(e, fr)

    def ex_unsupported(self, e, fr): raise Unsupported('expression %s line %d' % (type(e).__name__, e.lineno))

    def ex_Constant(self, e, fr): return C(e.value)
    def ex_Name(self, e, fr): return self.load_name(e.id, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr); self.assign(e.target, v, fr); return v

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def ex_Tuple(self, e, fr): return T(self.seq_items(e.elts, fr))
    def ex_List(self, e, fr): return self.new_list(self.seq_items(e.elts, fr))
    def ex_Set(self, e, fr): return self.new_set(self.seq_items(e.elts, fr))

    def seq_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.finite(self.eval(x.value, fr))
            else: out.append(self.eval(x, fr))
        return out

    def ex_Dict(self, e, fr):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.env.call_builtin_method(self, d, 'update', [self.eval(v, fr)], {})
            else:
                kk = self.eval(k, fr)
                self.dset(d, kk, self.eval(v, fr))
        return d

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1: return v
            if isand:
                if not self.branch(v): return v
            else:
                if self.branch(v): return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return mkbool(Not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, C): return C(-v.v)
            return mkint(-zint(v))
        if isinstance(e.op, ast.Invert) and isinstance(v, C): return C(~v.v)
        raise Unsupported('unary')

    def ex_IfExp(self, e, fr):
        return self.eval(e.body if self.branch(self.eval(e.test, fr)) else e.orelse, fr)

    def ex_Lambda(self, e, fr): return self.make_function(e, fr, '<lambda>')

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(C(v.value))
            else:
                x = self.eval(v.value, fr)
                if v.format_spec is not None or v.conversion == 97: parts.append(self.fresh_str()); continue
                if v.conversion == 114: parts.append(self.repr_(x))
                else: parts.append(self.str_(x))
        return self.concat_strs(parts)

    def concat_strs(self, parts):
        if not parts: return C('')
        if all(isinstance(p, C) for p in parts): return C(''.join(p.v for p in parts))
        ts = [zstr(p) for p in parts]
        return mkstr(z3.Concat(*ts) if len(ts) > 1 else ts[0])

    def str_(self, v):
        if isinstance(v, C):
            if isinstance(v.v, str): return C(str(v.v))
            if isinstance(v.v, (int, bool, type(None), float)): return C(str(v.v))
            return mkstr(strof(term(v)))
        if isinstance(v, SStr): return v
        if isinstance(v, S):
            w = self.force(v) if self.kind(v).cons != 'ref' else v
            if isinstance(w, SStr) or isinstance(w, C): return self.str_(w)
            return mkstr(strof(term(w)))
        if isinstance(v, SInt):
            return mkstr(strof(term(v)))
        if isinstance(v, (O, T, SBool, SByt)): return mkstr(strof(term(v)))
        return self.fresh_str('strof')

    def repr_(self, v):
        if isinstance(v, C) and isinstance(v.v, (str, int, bool, type(None), float, bytes)): return C(repr(v.v))
        if isinstance(v, (S, O, T, SBool, SByt, SInt, SStr, C)): return mkstr(reprof(term(v)))
        return self.fresh_str('reprof')

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if i == len(e.ops) - 1: return v if res is None else v
            if not self.branch(v): return FALSE
            left = right
        return v

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == 'Is': return mkbool(self.is_(a, b))
        if n == 'IsNot': return mkbool(Not(self.is_(a, b)))
        if n in ('Eq', 'NotEq'):
            h = self.eq_hook(a, b)
            if h is not None: return h if n == 'Eq' else mkbool(Not(self.truth(h)))
            f = self.eq(a, b)
            return mkbool(f if n == 'Eq' else Not(f))
        if n in ('In', 'NotIn'):
            f = self.contains(b, a)
            return mkbool(f if n == 'In' else Not(f))
        a, b = self.force(a), self.force(b)
        if isinstance(a, T) and is_concrete(a): a = C(concrete(a))
        if isinstance(b, T) and is_concrete(b): b = C(concrete(b))
        if isinstance(a, C) and isinstance(b, C):
            try: return C({'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[n](a.v, b.v))
            except TypeError: self.raise_(TypeError, C('order'))
        num = (int, bool)
        if self.pytype(a) in num and self.pytype(b) in num:
            x, y = zint(a), zint(b)
            return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n])
        if self.pytype(a) in (None,) or self.pytype(b) in (None,): raise Unsupported('ordering of unknown values')
        if self.pytype(a) is type(None) or self.pytype(b) is type(None): self.raise_(TypeError, C('order'))
        raise Unsupported('ordering %r %r' % (a, b))

    def eq_hook(self, a, b):
        return None

    def contains(self, c, x):
        if isinstance(c, T): return Or(*[Or(self.is_(x, y), self.eq(x, y)) for y in c.items])
        if isinstance(c, C) and isinstance(c.v, (tuple, frozenset)): return Or(*[self.eq(x, C(y)) for y in c.v])
        p = self.pytype(c)
        if p is str:
            x = self.force(x)
            if self.pytype(x) is not str: self.raise_(TypeError, C('in <string>'))
            if isinstance(c, C) and isinstance(x, C): return x.v in c.v
            return z3.Contains(zstr(c), zstr(x))
        if isinstance(c, S) and self.kind(c).contains: return self.kind(c).contains(self, c, x)
        if isinstance(p, type) and issubclass(p, dict):
            r = self.dict_has(c, x); return r
        if p is list:
            l = self.lstate(c)
            f = [Or(self.is_(x, y), self.eq(x, y)) for y in l.items]
            if l.n is not None: raise Unsupported('membership in a symbolic list')
            return Or(*f)
        if p in (set, frozenset): return self.set_has(c, x)
        if isinstance(c, O) and isinstance(self.objs[c.addr].meta, tuple) and self.objs[c.addr].meta[:1] == ('view',):
            _, what, d = self.objs[c.addr].meta
            if what == 'keys': return self.dict_has(d, x)
            its = self.iter_view(self.objs[c.addr].meta)
            if isinstance(its, list): return Or(*[Or(self.is_(x, y), self.eq(x, y)) for y in its])
            if what == 'values':
                # exists a key mapped to x
                arr = self.dmap(d).array()
                k = self.ctx.fresh('kx', V)
                return z3.Exists([k], z3.Select(arr, k) == OV.some(term(x)))
        if isinstance(c, S):
            w = self.force(c)
            if not isinstance(w, S): return self.contains(w, x)
            if self.pytype(w) is tuple:
                return Or(*[Or(self.is_(x, y), self.eq(x, y)) for y in self.finite(self.tuple_seq(w))])
            if self.kind(w).contains: return self.kind(w).contains(self, w, x)
        if isinstance(c, It) and c.items is not None: return Or(*[self.eq(x, y) for y in c.items])
        if isinstance(c, O) and isinstance(p, type) and '__contains__' in _mro_dict(p):
            return self.truth(self.call_method(c, '__contains__', [x]))
        raise Unsupported('membership in %r' % (c,))

    def dict_has(self, d, k):
        self.hashable(k)
        dm = self.dmap(d)
        for kk, x in dm.writes:
            if isinstance(k, C) and isinstance(kk, C) and self.same_key(kk, k): return x is not ABSENT
        for kk, x in dm.writes:
            if self.same_key(kk, k): return x is not ABSENT
        if dm.base is None: return False
        return OV.is_some(z3.simplify(z3.Select(dm.base, term(k))))

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        n = type(op).__name__
        if self.env.binop_hook is not None:
            r = self.env.binop_hook(self, n, self.force(a), self.force(b))
            if r is not None: return r
        if n == 'Mod' and self.pytype(a) is str:
            if isinstance(a, C) and is_concrete(b):
                try: return C(a.v % concrete(b))
                except Exception: pass
            return self.env.format_percent(self, a, b)
        a, b = self.force(a), self.force(b)
        pa, pb = self.pytype(a), self.pytype(b)
        if isinstance(a, C) and isinstance(b, C) and not isinstance(a.v, (list, dict, set)) and not isinstance(b.v, (list, dict, set)):
            ops = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
                   'Mod': operator.mod, 'Pow': operator.pow, 'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor,
                   'LShift': operator.lshift, 'RShift': operator.rshift}
            try: return wrap(ops[n](a.v, b.v))
            except Exception as ex: self.raise_(type(ex), C(str(ex)))
        num = (int, bool)
        if pa in num and pb in num:
            x, y = zint(a), zint(b)
            if n == 'Add': return mkint(z3.simplify(x + y))
            if n == 'Sub': return mkint(z3.simplify(x - y))
            if n == 'Mult': return mkint(z3.simplify(x * y))
            if n in ('FloorDiv', 'Mod') and isinstance(b, C) and b.v > 0:
                return mkint(x / y if n == 'FloorDiv' else x % y)
            if n == 'RShift' and isinstance(b, C) and b.v >= 0: return mkint(x / (1 << b.v))
            if n == 'LShift' and isinstance(b, C) and b.v >= 0: return mkint(x * (1 << b.v))
            if n == 'RShift': return mkint(ufun('rshift', I, I, I)(x, y))
            if n == 'LShift': return mkint(ufun('lshift', I, I, I)(x, y))
            if n == 'BitOr': return mkint(self.env.bitop(self, 'or', a, b))
            if n == 'BitAnd': return mkint(self.env.bitop(self, 'and', a, b))
            raise Unsupported('int %s' % n)
        if pa is str and pb is str and n == 'Add': return self.concat_strs([a, b])
        if pa is bytes and pb is bytes and n == 'Add':
            return SByt(z3.Concat(V.yv(term(a)) if not isinstance(a, SByt) else a.t, V.yv(term(b)) if not isinstance(b, SByt) else b.t))
        if n == 'Mult' and (pa is str and pb in num or pb is str and pa in num):
            s, k = (a, b) if pa is str else (b, a)
            return self.env.str_repeat(self, s, k)
        if pa is tuple and pb is tuple and n == 'Add':
            return T(self.finite(a) + self.finite(b))
        if pa is list and n == 'Add':
            if inplace:
                self.lstate(a).items.extend(self.finite(b)); self.wrote('list', a); return a
            if pb is list:
                la, lb = self.lstate(a), self.lstate(b)
                if lb.n is None:
                    o = self.new_list(); self.lists[o.addr] = LState(la.items + lb.items, la.n, la.get, la.arr); return o
        if pa is type({}.keys()) and n in ('BitOr', 'Sub', 'BitAnd'): a = self.call(C(set), [a], {}); pa = set; inplace = False
        if pa in (set, frozenset) and n in ('BitOr', 'Sub', 'BitAnd'):
            if inplace and n == 'BitOr':
                self.env.call_builtin_method(self, a, 'update', [b], {}); return a
            return self.env.call_builtin_method(self, a, {'BitOr': 'union', 'Sub': 'difference', 'BitAnd': 'intersection'}[n], [b], {})
        if n == 'BitOr' and pa is dict and pb is dict:
            if inplace: self.env.call_builtin_method(self, a, 'update', [b], {}); return a
            o = self.env.call_builtin_method(self, a, 'copy', [], {})
            self.env.call_builtin_method(self, o, 'update', [b], {}); return o
        if (pa in num and pb is str or pa is str and pb in num or pa is type(None) or pb is type(None)) and n == 'Add':
            self.raise_(TypeError, C('operand'))
        if n == 'Div': 
            return self.sym('div', ANY)
        raise Unsupported('binop %s %r %r' % (n, pa, pb))

    def norm_index(self, i, n):
        return i

    def getitem(self, o, i):
        if isinstance(o, T) or isinstance(o, C) and type(o.v) is tuple:
            its = o.items if isinstance(o, T) else [C(x) for x in o.v]
            if isinstance(i, SliceV):
                lo, hi, st = i.concrete(self)
                return T(its[slice(lo, hi, st)])
            i = self.force(i)
            if isinstance(i, C):
                try: return its[i.v]
                except IndexError: self.raise_(IndexError, C('tuple index'))
            if isinstance(i, (SBool, SInt)):
                for j in range(-len(its), len(its)):
                    if self.ctx.branch(zint(i) == j): return its[j]
                self.raise_(IndexError, C('tuple index'))
            raise Unsupported('tuple index %r' % (i,))
        p = self.pytype(o)
        if isinstance(o, S) and p is None:
            if self.kind(o).getitem is not None and not isinstance(self.kind(o).getitem, Kind): return self.kind(o).getitem(self, o, i)
            w = self.force(o)
            if not isinstance(w, S): return self.getitem(w, i)
            o = w; p = self.pytype(o)
        if isinstance(o, S) and self.kind(o).getitem is not None and not isinstance(self.kind(o).getitem, Kind):
            return self.kind(o).getitem(self, o, i)
        if isinstance(p, type) and issubclass(p, dict):
            if isinstance(p, type) and p is not dict and isinstance(_mro_dict(p).get('__getitem__'), types.FunctionType):
                return self.call(C(_mro_dict(p)['__getitem__']), [o, i], {})
            x = self.dget(o, i)
            if x is ABSENT:
                ms = _mro_dict(p).get('__missing__')
                if isinstance(ms, types.FunctionType): return self.call(C(ms), [o, i], {})
                self.raise_(KeyError, i)
            return x
        if p is tuple: return self.env.stuple_getitem(self, o, i)
        if p is list: return self.env.list_getitem(self, o, i)
        if p is str: return self.env.str_getitem(self, o, i)
        if isinstance(o, SByt) or p is bytes: return self.env.bytes_getitem(self, o, i)
        if isinstance(o, O) and isinstance(p, type) and isinstance(_mro_dict(p).get('__getitem__'), types.FunctionType):
            return self.call_method(o, '__getitem__', [i])
        if isinstance(o, C):
            try:
                if is_concrete(i): return wrap(o.v[concrete(i)])
            except (KeyError, IndexError, TypeError) as ex: self.raise_(type(ex), C(str(ex)))
        raise Unsupported('subscript of %r (%r)' % (o, p))

    def setitem(self, o, i, x):
        p = self.pytype(o)
        if p is None and isinstance(o, S): o = self.force(o); p = self.pytype(o)
        if isinstance(p, type) and issubclass(p, dict):
            f = _mro_dict(p).get('__setitem__')
            if p is not dict and isinstance(f, types.FunctionType): self.call(C(f), [o, i, x], {}); return
            self.dset(o, i, x); return
        if p is list: self.env.list_setitem(self, o, i, x); return
        if isinstance(o, S) and 'setitem' in self.kind(o).methods: self.kind(o).methods['setitem'](self, o, [i, x], {}); return
        if isinstance(o, O) and isinstance(p, type) and isinstance(_mro_dict(p).get('__setitem__'), types.FunctionType):
            self.call_method(o, '__setitem__', [i, x]); return
        raise Unsupported('item assignment to %r' % (p,))

    def delitem(self, o, i):
        p = self.pytype(o)
        if isinstance(p, type) and issubclass(p, dict):
            h = self.dict_has(o, i)
            if not self.branch(h): self.raise_(KeyError, i)
            self.ddel(o, i); return
        if p is list: self.env.list_delitem(self, o, i); return
        raise Unsupported('item deletion')

    def ex_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def ex_Slice(self, e, fr):
        return SliceV(*[self.eval(x, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def ex_Starred(self, e, fr): raise Unsupported('starred')

    def ex_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        if fr.on_yield is None: raise Unsupported('yield')
        return fr.on_yield(v)

    def ex_YieldFrom(self, e, fr):
        if fr.on_yield is None: raise Unsupported('yield')
        for x in self.finite(self.eval(e.value, fr)): fr.on_yield(x)
        return NONE

    def ex_Call(self, e, fr):
        # special forms
        if isinstance(e.func, ast.Name):
            nm = e.func.id
            if nm in ('locals', 'globals', 'super', 'vars') and nm not in fr.locals:
                r = self.special_call(nm, e, fr)
                if r is not None: return r
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, S) and self.pytype(v) is tuple and a is e.args[-1] and not self._known_len(v):
                    args.append(_StarSeq(v))
                else: args += self.finite(v)
            else: args.append(self.eval(a, fr))
        kwargs = {}; kwrest = None
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                dm = self.dmap(d)
                if dm.base is None:
                    for kk, x in dm.writes:
                        if x is ABSENT: continue
                        if not (isinstance(kk, C) and isinstance(kk.v, str)): raise Unsupported('symbolic keyword')
                        if kk.v in kwargs: self.raise_(TypeError, C('multiple values'))
                        kwargs[kk.v] = x
                else:
                    if kwrest is not None: raise Unsupported('two symbolic ** arguments')
                    kwrest = dm.copy()
                    for n in kwargs:
                        if self.dmap_get(kwrest, C(n)) is not ABSENT: self.raise_(TypeError, C('multiple values'))
            else:
                if k.arg in kwargs: self.raise_(TypeError, C('multiple values'))
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs, kwrest)

    def _known_len(self, v):
        n = self.tuple_len(v)
        return isinstance(n, int)

    def special_call(self, nm, e, fr):
        if nm == 'locals' and not e.args:
            return self.new_dict([(C(k), x) for k, x in fr.vars.items()])
        if nm == 'globals' and not e.args: return C(fr.module.__dict__)
        if nm == 'super' and not e.args:
            q = fr.fn.qual.split('.')
            cls = fr.module
            for part in q[:-1]: cls = getattr(cls, part)
            first = fr.fn.node.args.args[0].arg
            return SuperV(cls, fr.vars[first])
        if nm == 'super' and len(e.args) == 2:
            c = self.eval(e.args[0], fr); s = self.eval(e.args[1], fr)
            if isinstance(c, C): return SuperV(c.v, s)
            return None
        return None

    # comprehensions
    def comp(self, gens, fr, emit):
        sub = Frame(fr, fr.module, fr.fn)
        sub.comp = True
        sub.on_yield = fr.on_yield
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): sub.locals.add(n.id)
        def rec(i, f):
            if i == len(gens): emit(f); return
            g = gens[i]
            src = self.eval(g.iter, fr if i == 0 else f)
            for x in self.finite(src):
                self.assign(g.target, x, f)
                if all(self.branch(self.eval(c, f)) for c in g.ifs): rec(i + 1, f)
        rec(0, sub)

    def comp_hook(self, e, fr):
        """symbolic comprehension support supplied by a contract"""
        for h in self.env.comp_hooks + self.ghost.get('comp_hooks', []):
            r = h(self, e, fr)
            if r is not None: return r
        return None

    def ex_ListComp(self, e, fr):
        r = self.comp_hook(e, fr)
        if r is not None: return r
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return self.new_list(out)

    def ex_GeneratorExp(self, e, fr):
        r = self.comp_hook(e, fr)
        if r is not None: return r
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return It(out)

    def ex_SetComp(self, e, fr):
        r = self.comp_hook(e, fr)
        if r is not None: return r
        s = self.new_set()
        self.comp(e.generators, fr, lambda f: self.set_add(s, self.eval(e.elt, f)))
        return s

    def ex_DictComp(self, e, fr):
        r = self.comp_hook(e, fr)
        if r is not None: return r
        d = self.new_dict()
        self.comp(e.generators, fr, lambda f: self.dset(d, self.eval(e.key, f), self.eval(e.value, f)))
        return d

    # convenience for contracts
    def prove(self, label, f, detail=None): return self.ctx.prove(label, f, detail)
    def assume(self, f): self.ctx.assume(f)
    def cover(self, label): self.ctx.cover(label)

    def run(self, fn, args, kwargs=None, kwrest=None):
        """run a real function's body; returns ('return', val) or ('raise', exc)"""
        old = self.ghost.get('target')
        self.ghost['target'] = fn
        try:
            if isinstance(fn, M): return ('return', self.call(fn, args, kwargs or {}, kwrest))
            return ('return', self.call(fn if isinstance(fn, Val) else C(fn), args, kwargs or {}, kwrest))
        except PyRaise as r:
            return ('raise', r.val)
        finally:
            self.ghost['target'] = old


class SliceV(Val):
    __slots__ = ('lo', 'hi', 'st')
    def __init__(self, lo, hi, st): self.lo, self.hi, self.st = lo, hi, st
    def concrete(self, m):
        out = []
        for x in (self.lo, self.hi, self.st):
            x = m.force(x)
            if not isinstance(x, C): raise Unsupported('symbolic slice of a tuple')
            out.append(x.v)
        return out


class _StarSeq(Val):
    __slots__ = ('val',)
    def __init__(self, v): self.val = v


def valkey(v):
    """equal keys mean equal values"""
    if isinstance(v, C):
        return ('c', type(v.v).__name__, repr(v.v)) if isinstance(v.v, (str, int, float, bytes, type(None))) else ('C', host_rid(v.v))
    if isinstance(v, (S, SStr, SInt, SBool, SByt)):
        _kept_terms.append(v.t); return ('t', type(v).__name__, v.t.get_id())
    if isinstance(v, T): return ('T',) + tuple(valkey(x) for x in v.items)
    if isinstance(v, O): return ('o', v.addr)
    if isinstance(v, M): return ('m', valkey(v.self), v.name)
    _kept_terms.append(v)
    if isinstance(v, It): return ('it', id(v), v.pos)
    return ('id', id(v))

_kept_terms = []


def live_at_head(loop, fn):
    """names whose value at the loop head may matter (None: all); names read elsewhere count as live"""
    if fn is None: return None
    r = loop.__dict__.get('_live')
    if r is not None: return r
    inloop = {id(n) for st in loop.body for n in ast.walk(st)}
    live = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and id(n) not in inloop}
    killed = set()
    def stores(t):
        return {t.id} if isinstance(t, ast.Name) else set().union(*[stores(e) for e in t.elts]) if isinstance(t, (ast.Tuple, ast.List)) else set()
    if isinstance(loop, ast.For): killed |= stores(loop.target)
    for st in loop.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store) and n.id not in killed: live.add(n.id)
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AugAssign)):
                live |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        if isinstance(st, ast.Assign):
            for t in st.targets: killed |= stores(t)
    loop._live = live
    return live


class _GenCM: pass


def _is_ctxmgr(o):
    return o.__code__.co_name == 'helper' and 'contextlib' in o.__code__.co_filename


def wrap(x):
    if isinstance(x, Val): return x
    if type(x) is tuple and any(not isinstance(i, (str, int, bytes, type(None), float, type)) for i in x):
        return T([wrap(i) for i in x])
    return C(x)


def _mro_dict(p):
    return _MroDict(p)


class _MroDict:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def get(self, n, d=None):
        for c in self.p.__mro__:
            if n in c.__dict__: return c.__dict__[n]
        return d
    def __contains__(self, n): return self.get(n, _MroDict) is not _MroDict
    def __getitem__(self, n): return self.get(n)


def _disjoint(a, b):
    """no class can inherit from both (layout conflict)"""
    solid = [c for c in BUILTIN_SOLID if issubclass(a, c)], [c for c in BUILTIN_SOLID if issubclass(b, c)]
    if solid[0] and solid[1]:
        return not any(issubclass(x, y) or issubclass(y, x) for x in solid[0] for y in solid[1])
    return False


def _walk_own(node):
    """nodes of a function body excluding nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): continue
        if isinstance(n, (ast.GeneratorExp,)):
            pass
        stack.extend(ast.iter_child_nodes(n))


def scope_of(node):
    a = node.args
    loc = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: loc.add(a.vararg.arg)
    if a.kwarg: loc.add(a.kwarg.arg)
    glob, nonl = set(), set()
    def visit(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in getattr(n, 'decorator_list', []): visit(d)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, ast.Global): glob.update(n.names); return
        if isinstance(n, ast.Nonlocal): nonl.update(n.names); return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr): loc.add(sub.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): loc.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: loc.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: loc.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n): visit(c)
    for s in (node.body if isinstance(node.body, list) else [node.body]): visit(s)
    loc -= glob; loc -= nonl
    return loc, glob, nonl
