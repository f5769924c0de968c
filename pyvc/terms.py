"""Value and term representation of pyvc.

The logic has one sort V for Python values.  Engine values (Val subclasses) keep whatever is concrete
concrete, and are embedded in V only when a formula needs them.
"""
import z3

_V = z3.Datatype('V'); _L = z3.Datatype('L')
_V.declare('none')
_V.declare('boolv', ('bv', z3.BoolSort()))
_V.declare('intv', ('iv', z3.IntSort()))
_V.declare('strv', ('sv', z3.StringSort()))
_V.declare('bytv', ('yv', z3.StringSort()))
_V.declare('tupv', ('tv', _L))
_V.declare('ref', ('rid', z3.IntSort()))
_L.declare('nil')
_L.declare('cons', ('hd', _V), ('tl', _L))
V, L = z3.CreateDatatypes(_V, _L)
_OV = z3.Datatype('OV')
_OV.declare('absent')
_OV.declare('some', ('val', V))
OV = _OV.create()
DICT = z3.ArraySort(V, OV)
SETS = z3.ArraySort(V, z3.BoolSort())
EMPTYD = z3.K(V, OV.absent)
EMPTYS = z3.K(V, z3.BoolVal(False))
I = z3.IntSort(); B = z3.BoolSort(); STR = z3.StringSort()

OLD_MAX = 1000000          # symbolic (pre-existing) objects have 0 <= rid < OLD_MAX
                           # allocated objects have rid >= OLD_MAX, host objects rid < 0


class Val:
    __slots__ = ()


class C(Val):
    """a concrete host value (constant, or host object compared by identity)"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self):
        r = repr(self.v)
        return 'C(%s)' % (r if len(r) < 60 else r[:57] + '...')


class SInt(Val):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SInt(%s)' % self.t


class SBool(Val):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SBool(%s)' % self.t


class SStr(Val):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SStr(%s)' % self.t


class SByt(Val):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SByt(%s)' % self.t


class T(Val):
    """a tuple of known length"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return 'T%r' % (self.items,)


class O(Val):
    """an object allocated during the execution; its description is machine.objs[addr]"""
    __slots__ = ('addr',)
    def __init__(self, addr): self.addr = addr
    def __repr__(self): return 'O(%d)' % self.addr


class S(Val):
    """a symbolic value: a term of sort V"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'S(%s)' % self.t


NONE, TRUE, FALSE = C(None), C(True), C(False)

_host_ids = {}
_host_objs = {}
_float_ids = {}


def host_rid(obj):
    if isinstance(obj, (float, complex)):
        key = repr(obj)
        if key not in _float_ids:
            n = len(_host_objs) + 1
            _float_ids[key] = -n; _host_objs[-n] = obj
        return _float_ids[key]
    k = id(obj)
    if k not in _host_ids:
        n = len(_host_objs) + 1
        _host_ids[k] = -n
        _host_objs[-n] = obj          # keeps obj alive, so ids stay unique
    return _host_ids[k]


def str_const(s):
    return z3.StringVal(s)


_unesc_cache = {}


def term(v):
    """embed a value in V"""
    if isinstance(v, S): return v.t
    if isinstance(v, O): return V.ref(v.addr)
    if isinstance(v, SInt): return V.intv(v.t)
    if isinstance(v, SBool): return V.boolv(v.t)
    if isinstance(v, SStr): return V.strv(v.t)
    if isinstance(v, SByt): return V.bytv(v.t)
    if isinstance(v, T):
        l = L.nil
        for x in reversed(v.items): l = L.cons(term(x), l)
        return V.tupv(l)
    if isinstance(v, C):
        x = v.v
        if x is None: return V.none
        if x is True or x is False: return V.boolv(z3.BoolVal(x))
        if type(x) is int: return V.intv(z3.IntVal(x))
        if type(x) is str: return V.strv(z3.StringVal(x))
        if type(x) is bytes: return V.bytv(z3.StringVal(x.decode('latin1')))
        if type(x) is tuple: return term(T([C(i) for i in x]))
        return V.ref(z3.IntVal(host_rid(x)))
    raise TypeError('cannot embed %r' % (v,))


def str_of(t):
    """python string of a z3 string literal"""
    return z3_unescape(t.as_string())


def z3_unescape(s):
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1) or m.group(2), 16)), s)


def unterm(t):
    """turn a V term back into a value, keeping concrete what is syntactically concrete"""
    if z3.is_app(t):
        d = t.decl().name()
        if d == 'none' and t.num_args() == 0: return NONE
        if d == 'boolv': return mkbool(t.arg(0))
        if d == 'intv': return mkint(t.arg(0))
        if d == 'strv': return mkstr(t.arg(0))
        if d == 'bytv':
            a = t.arg(0)
            if z3.is_string_value(a): return C(str_of(a).encode('latin1'))
            return SByt(a)
        if d == 'tupv':
            items = []; l = t.arg(0)
            while z3.is_app(l) and l.decl().name() == 'cons':
                items.append(unterm(l.arg(0))); l = l.arg(1)
            if z3.is_app(l) and l.decl().name() == 'nil': return T(items)
            return S(t)
        if d == 'ref':
            a = t.arg(0)
            if z3.is_int_value(a):
                n = a.as_long()
                if n < 0: return C(_host_objs[n])
                if n >= OLD_MAX: return O(n)
    return S(t)


def mkbool(t):
    if t is True or t is False: return C(t)
    if z3.is_true(t): return TRUE
    if z3.is_false(t): return FALSE
    return SBool(t)


def mkint(t):
    if isinstance(t, int): return C(t)
    if z3.is_int_value(t): return C(t.as_long())
    return SInt(t)


def mkstr(t):
    if isinstance(t, str): return C(t)
    if z3.is_string_value(t): return C(str_of(t))
    return SStr(t)


def zint(v):
    if isinstance(v, SInt): return v.t
    if isinstance(v, C) and isinstance(v.v, (bool, int)): return z3.IntVal(int(v.v))
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise TypeError('not an int: %r' % (v,))


def zstr(v):
    if isinstance(v, SStr): return v.t
    if isinstance(v, C) and type(v.v) is str: return z3.StringVal(v.v)
    raise TypeError('not a str: %r' % (v,))


def is_concrete(v):
    if isinstance(v, C): return True
    if isinstance(v, T): return all(is_concrete(x) for x in v.items)
    return False


def concrete(v):
    if isinstance(v, C): return v.v
    if isinstance(v, T): return tuple(concrete(x) for x in v.items)
    raise TypeError(v)


def And(*a):
    a = [x for x in _flat(a) if x is not True]
    if any(x is False for x in a): return False
    if not a: return True
    return a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in _flat(a) if x is not False]
    if any(x is True for x in a): return True
    if not a: return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def _flat(a):
    for x in a:
        if isinstance(x, (list, tuple)): yield from _flat(x)
        else: yield x


def Not(a):
    if a is True or a is False: return not a
    if z3.is_true(a): return False
    if z3.is_false(a): return True
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def zb(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a
