"""Ghost semantics of pickling: the reductions a save function emits, and what loading them builds.

Assumed contract on the standard library (stated in DESIGN.md): pickle writes a reduction
(func, args[, state...]) and loading it calls func on faithful copies of args; obj=... memoises the object.
Copies of the parts are identified with the parts themselves (parametricity in the parts).
"""
import abc, pickle, types, sys, collections, threading, functools, weakref, warnings, copy
import z3
from .terms import *
from .core import *
from .interp import *
from .interp import _mro_dict

StockPickler = pickle._Pickler
StockUnpickler = pickle._Unpickler

CODE_FIELDS = ('argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames '
               'filename name qualname firstlineno linetable exceptiontable freevars cellvars').split()

K_CODE = Kind('code', pytype=types.CodeType, cons='ref', attrs=dict(
    {'co_' + f: ANY for f in CODE_FIELDS}, co_lnotab=K_BYTES, co_argcount=K_INT, co_name=K_STR, co_qualname=K_STR,
    co_freevars=Kind('freevars', pytype=tuple, cons='ref', getitem=K_STR), co_code=K_BYTES, co_linetable=K_BYTES, co_exceptiontable=K_BYTES))
del K_CODE.attrs['co_argcount']; K_CODE.attrs['co_argcount'] = K_INT

cell_full = ufun('cell_full', I, B)
K_CELL = Kind('cell', pytype=types.CellType, cons='ref')

K_MODULEDICT = Kind('moduledict', pytype=dict, cons='ref', dictkinds=(K_STR, ANY))


class Ev:
    """an observable event"""
    def __init__(self, kind, **kw):
        self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return 'Ev(%s, %s)' % (self.kind, {k: v for k, v in self.__dict__.items() if k != 'kind'})


def install(env):
    """models of the stock pickler used by the save functions: they only append events"""
    def save_reduce(m, a, kw):
        pickler, args = a[0], list(a[1:])
        names = ['func', 'args', 'state', 'listitems', 'dictitems', 'state_setter']
        d = dict(zip(names, args)); obj = kw.get('obj')
        for k, v in kw.items():
            if k in names: d[k] = v
        ev = Ev('reduce', pickler=pickler, obj=obj, **{n: d.get(n, NONE) for n in names})
        hook = m.ghost.get('on_save')
        m.trace.append(ev)
        if m.ghost.get('save_may_raise') and m.ctx.choose(2): raise PyRaise(m.sym_exc('save_exc'))
        if hook: hook(m, ev)
        return NONE
    env.model(StockPickler.save_reduce, save_reduce)
    env.model(StockPickler.save_global, lambda m, a, kw: _ev(m, Ev('global', obj=a[1], name=a[2] if len(a) > 2 else kw.get('name', NONE))))
    env.model(StockPickler.save, lambda m, a, kw: _ev(m, Ev('save', obj=a[1], pid=a[2] if len(a) > 2 else kw.get('save_persistent_id', TRUE))))
    env.model(StockPickler.memoize, lambda m, a, kw: _ev(m, Ev('memoize', obj=a[1])))
    env.model(StockPickler._batch_setitems, lambda m, a, kw: _ev(m, Ev('setitems', items=a[1])))
    env.model(StockPickler.get, lambda m, a, kw: m.alloc(bytes, None, ('get', a[1])))
    if hasattr(StockPickler, 'save_dict'):
        env.model(StockPickler.save_dict, lambda m, a, kw: _ev(m, Ev('save_dict', obj=a[1])))
        env.model(StockPickler.save_type, lambda m, a, kw: _ev(m, Ev('save_type', obj=a[1])))
    env.attr_hooks['write'] = lambda m, v: (M(v, 'write', None) if _is_pickler(m, v) else None)
    env.obj_method_models = dict(env.obj_method_models)
    for cls in pickler_classes():
        env.obj_method_models[(cls, 'write')] = lambda m, o, a, kw: _ev(m, Ev('write', data=a[0]))
    # constructors of the interpreter
    def mk_code(m, a, kw):
        o = m.alloc(types.CodeType)
        if len(a) not in (16, 17, 18): m.raise_(TypeError, C('code() arguments'))
        if len(a) < 18: raise Unsupported('short code()')
        m.attrs[o.addr] = {'co_' + f: x for f, x in zip(CODE_FIELDS, a)}
        return o
    env.model(types.CodeType, mk_code)
    def mk_function(m, a, kw):
        names = ['code', 'globals', 'name', 'argdefs', 'closure', 'kwdefaults']
        d = dict(zip(names, a)); d.update(kw)
        o = m.alloc(types.FunctionType)
        code, g = d['code'], d['globals']
        nm = d.get('name', NONE); 
        nm_is_none = m.branch(mkbool(m.is_(nm, NONE)))
        cn = m.lookup_attr(code, 'co_name'); cq = m.lookup_attr(code, 'co_qualname')
        dct = m.new_dict()
        modname = m.dget(g, C('__name__'))
        m.attrs[o.addr] = {'__code__': code, '__globals__': g, '__name__': cn if nm_is_none else nm, '__qualname__': cq,
                           '__defaults__': d.get('argdefs', NONE), '__closure__': d.get('closure', NONE), '__dict__': dct,
                           '__kwdefaults__': d.get('kwdefaults', NONE), '__module__': NONE if modname is ABSENT else modname,
                           '__annotations__': m.new_dict(),
                           '__doc__': S(ufun('code_doc', V, V)(term(code)))}
        return o
    env.model(types.FunctionType, mk_function)
    def mk_cell(m, a, kw):
        o = m.alloc(types.CellType)
        m.attrs[o.addr] = {'cell_contents': a[0] if a else ABSENT}
        return o
    env.model(types.CellType, mk_cell)
    def cell_contents(m, v):
        if m.pytype(v) is not types.CellType: return None
        x = m.overlay_attr(v, 'cell_contents')
        if x is ABSENT: m.raise_(ValueError, C('Cell is empty'))
        if x is not None: return x
        if isinstance(v, S):
            if not m.ctx.branch(cell_full(V.rid(v.t))): m.raise_(ValueError, C('Cell is empty'))
            return m.as_kind(attr_val('cell_contents', m.epoch)(V.rid(v.t)), m.ghost.get('cell_kind', ANY))
        return None
    env.attr_hooks['cell_contents'] = cell_contents
    def mk_property(m, a, kw, cls=property):
        d = dict(zip(['fget', 'fset', 'fdel', 'doc'], a)); d.update(kw)
        o = m.alloc(cls)
        doc = d.get('doc', NONE)
        if m.branch(mkbool(m.is_(doc, NONE))):
            fg = d.get('fget', NONE)
            doc = S(ufun('getter_doc', V, V)(term(fg)))
        m.attrs[o.addr] = {'fget': d.get('fget', NONE), 'fset': d.get('fset', NONE), 'fdel': d.get('fdel', NONE), '__doc__': doc}
        return o
    env.model(property, mk_property)
    env.model(abc.abstractproperty, lambda m, a, kw: mk_property(m, a, kw, abc.abstractproperty))
    def mk_slice(m, a, kw):
        o = m.alloc(slice)
        if len(a) == 1: a = [NONE, a[0], NONE]
        a = list(a) + [NONE] * (3 - len(a))
        m.attrs[o.addr] = dict(zip(['start', 'stop', 'step'], a)); return o
    env.model(slice, mk_slice)
    def mk_method(m, a, kw):
        o = m.alloc(types.MethodType); m.attrs[o.addr] = {'__func__': a[0], '__self__': a[1]}; return o
    env.model(types.MethodType, mk_method)
    def mk_super(m, a, kw):
        o = m.alloc(super); m.attrs[o.addr] = {'__thisclass__': a[0], '__self__': a[1] if len(a) > 1 else NONE}
        return o
    env.model(super, mk_super)
    # warnings filters
    class _CW: pass
    def catch(m, a, kw):
        return m.alloc(_CW, None)
    env.model(warnings.catch_warnings, catch)
    def cw_enter(m, o, a, kw):
        m.ghost.setdefault('filterstack', []).append(list(m.ghost.setdefault('filters', []))); return NONE
    def cw_exit(m, o, a, kw):
        m.ghost['filters'] = m.ghost['filterstack'].pop(); return NONE
    _CW.__enter__ = _CW.__exit__ = None
    env.obj_method_models[(_CW, '__enter__')] = cw_enter
    env.obj_method_models[(_CW, '__exit__')] = cw_exit
    prev = env.obj_attr_models
    env.obj_attr_models = dict(prev)
    env.obj_attr_models[_CW] = lambda m, v, n: M(v, n, None)
    _CW.__enter__ = property(lambda s: None); _CW.__exit__ = property(lambda s: None)
    del _CW.__enter__; del _CW.__exit__
    def filt(m, a, kw):
        m.ghost.setdefault('filters', []).insert(0, ('filter', a, kw)); return NONE
    env.model(warnings.filterwarnings, filt)
    env.model(warnings.simplefilter, filt)


def _ev(m, ev):
    m.trace.append(ev)
    if m.ghost.get('save_may_raise') and m.ctx.choose(2): raise PyRaise(m.sym_exc('save_exc'))
    return NONE


_classes = None
def pickler_classes():
    """the dill Pickler, a Pickler subclass defined elsewhere, and the stock (pure python) pickler"""
    global _classes
    if _classes is None:
        import dill._dill as D
        Sub = type('SubPickler', (D.Pickler,), {'__module__': 'user_module'})
        _classes = (D.Pickler, Sub, StockPickler)
    return _classes


def _is_pickler(m, v):
    return isinstance(v, O) and m.objs[v.addr].pytype in pickler_classes()


SETTING_KINDS = dict(_byref=ANY, _recurse=ANY, _fmode=ANY, _strictio=ANY, _session=ANY)


def mk_pickler(m, which=0, **attrs):
    """a pickler whose settings are arbitrary"""
    cls = pickler_classes()[which]
    o = m.alloc(cls)
    d = {}
    if which < 2:
        main = m.sym('main', K_MODULE)
        d = {'_byref': m.sym('byref', K_BOOL), '_recurse': m.sym('recurse', K_BOOL), '_fmode': m.sym('fmode', K_INT),
             '_strictio': m.sym('strictio', K_BOOL), '_session': m.sym('session', K_BOOL), '_first_pass': m.sym('first_pass', K_BOOL),
             '_main': main, '_original_main': m.sym('original_main', K_MODULE), '_main_modified': m.sym('main_modified', K_BOOL),
             '_diff_cache': m.new_dict(), '_postproc': m.new_dict()}
    d['memo'] = m.sym('memo', Kind('memo', pytype=dict, cons='ref', dictkinds=(K_INT, ANY)))
    d['proto'] = m.sym('proto', K_INT)
    d.update(attrs)
    m.attrs[o.addr] = d
    return o


K_MODULE = Kind('module', pytype=types.ModuleType, cons='ref', attrs={'__name__': K_STR, '__dict__': K_MODULEDICT}, open=True)


def choose_pickler(m, **attrs):
    i = m.ctx.choose(3)
    return i, mk_pickler(m, i, **attrs)


# ------------------------------------------------------------------------------- loading
class Loader:
    def __init__(self, m):
        self.m = m
        self.memo = []          # (original value, new value)

    def val(self, v):
        m = self.m
        for o, n in self.memo:
            if isinstance(v, (O, S, C)) and isinstance(o, (O, S, C)) and m.is_(v, o) is True: return n
        if isinstance(v, T): return T([self.val(x) for x in v.items])
        import dill._shims as SH
        if isinstance(v, C) and isinstance(v.v, SH.Reduce):
            return self.reduction(wrap(v.v.reduction))
        if isinstance(v, O) and isinstance(m.objs[v.addr].pytype, type) and issubclass(m.objs[v.addr].pytype, SH.Reduce):
            return self.reduction(m.call_method(v, '__reduce__', []))
        if isinstance(v, O) and m.objs[v.addr].pytype is list:
            l = m.lstate(v)
            if l.n is None:
                return m.new_list([self.val(x) for x in l.items])
        if isinstance(v, O) and m.objs[v.addr].pytype in (dict, collections.OrderedDict):
            d = m.dmap(v); cls = m.objs[v.addr].pytype
            if d.base is None:
                n = m.new_dict(pytype=cls)
                self.memo.append((v, n))
                for k, x in d.writes:
                    if x is not ABSENT: m.dset(n, self.val(k), self.val(x))
                return n
            n = m.alloc(cls); m.dicts[n.addr] = d.copy()
            self.memo.append((v, n))
            return n
        return v

    def reduction(self, red):
        its = self.m.iterate(red)
        its = its + [NONE] * (5 - len(its))
        return self.build(its[0], its[1], its[2], its[3], its[4])

    def build(self, func, args, state=NONE, listitems=NONE, dictitems=NONE, state_setter=NONE, obj=None):
        m = self.m
        f = self.val(func)
        a = self.val(args)
        r = m.call(f, m.finite(a), {})
        if obj is not None: self.memo.append((obj, r))
        if state is not NONE: self.set_state(r, self.val(state), state_setter)
        if dictitems is not NONE:
            for kv in m.finite(dictitems):
                k, x = m.unpack(kv, 2)
                m.setitem(r, self.val(k), self.val(x))
        if listitems is not NONE:
            for x in m.finite(listitems): m.call_method(r, 'append', [self.val(x)])
        return r

    def set_state(self, r, state, setter):
        m = self.m
        if setter is not NONE: m.call(self.val(setter), [r, state], {}); return
        ss = m.lookup_attr(r, '__setstate__')
        if ss is not ABSENT and not isinstance(m.pytype(r), type): m.call(ss, [state], {}); return
        st = m.force(state)
        slot = NONE
        if isinstance(st, T) and len(st.items) == 2: st, slot = st.items
        if m.branch(st):
            d = m.getattr(r, '__dict__')
            m.env.dict_update(m, d, st)
        if slot is not NONE and m.branch(slot):
            dm = m.dmap(slot)
            if dm.base is not None: raise Unsupported('symbolic slot state')
            for k, x in dm.writes:
                if x is not ABSENT: m.setattr(r, m.force(k).v, x)

    def stream(self, evs):
        """what the unpickler's stack holds after these events"""
        m = self.m; st = []
        for ev in evs:
            if not isinstance(ev, Ev): continue
            if ev.kind == 'reduce': st.append(self.event(ev))
            elif ev.kind == 'save': st.append(self.val(ev.obj))
            elif ev.kind == 'global': st.append(ev.obj)
            elif ev.kind == 'memoize': self.memo.append((ev.obj, st[-1]))
            elif ev.kind == 'setitems':
                for kv in m.finite(ev.items):
                    k, x = m.unpack(kv, 2); m.setitem(st[-1], self.val(k), self.val(x))
            elif ev.kind == 'write':
                d = ev.data
                if isinstance(d, C) and d.v == pickle.POP:
                    if not st: return None
                    st.pop()
                elif isinstance(d, O) and isinstance(m.objs[d.addr].name, tuple) and m.objs[d.addr].name[0] == 'get':
                    st.append(self.get(m.objs[d.addr].name[1]))
                else: raise Unsupported('written bytes %r' % (d,))
            else: raise Unsupported('stream event %s' % ev.kind)
        return st

    def get(self, idx):
        m = self.m
        memo = m.ghost.get('memo_of')
        for o, n in self.memo:
            e = m.getitem(memo, m.call(C(id), [o], {}))
            if m.branch(mkbool(m.is_(m.getitem(e, C(0)), idx))): return n
        raise Unsupported('memo index of an unknown object')

    def event(self, ev):
        if ev.kind == 'reduce':
            return self.build(ev.func, ev.args, ev.state, ev.listitems, ev.dictitems, ev.state_setter, ev.obj)
        raise Unsupported('load %s' % ev.kind)


def reduces(m):
    return [e for e in m.trace if isinstance(e, Ev) and e.kind == 'reduce']


def events(m, *kinds):
    return [e for e in m.trace if isinstance(e, Ev) and (not kinds or e.kind in kinds)]


def same(m, a, b):
    """a and b are the same value (parts are compared by identity of the copied part)"""
    if a is ABSENT or b is ABSENT: return a is b
    if isinstance(a, T) and isinstance(b, T):
        if len(a.items) != len(b.items): return False
        return And(*[same(m, x, y) for x, y in zip(a.items, b.items)])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and isinstance(y, S) and m.pytype(y) is tuple:
            n = m.tuple_len(y)
            return And(n == len(x.items), *[same(m, p, m.tuple_get(y, i)) for i, p in enumerate(x.items)])
    if isinstance(a, O) and isinstance(b, O) and a.addr != b.addr:
        pa, pb = m.objs[a.addr].pytype, m.objs[b.addr].pytype
        if pa is pb is dict: return m.dmap(a).array() == m.dmap(b).array()
        if pa is pb is list: return m.list_eq(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, O) and m.objs[x.addr].pytype is dict and isinstance(y, S) and m.pytype(y) is dict:
            return m.dmap(x).array() == m.dmap(y).array()
    return m.is_(a, b)
