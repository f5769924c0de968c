"""Models of builtins and of the standard library (the trusted contracts on dependencies)."""
import ast, builtins, collections, abc, sys, os, types, inspect, functools, operator, warnings, io, contextlib
import z3
from .terms import *
from .core import *
from .interp import *
from .interp import _mro_dict, _GenCM, _StarSeq

PURE = {len, abs, min, max, sorted, repr, str, int, bool, float, hash, ord, chr, divmod, sum, round, os.path.basename,
        os.path.join, str.join, bytes, tuple, hex, operator.attrgetter, operator.itemgetter}


class Env:
    machine_init = None
    binop_hook = None
    def __init__(self, source, contracts=None):
        self.source = source
        self.contracts = contracts or {}     # host function -> contract
        self.models = {}
        self.attr_hooks = {}
        self.obj_attr_models = {}
        self.comp_hooks = []
        self.eager_generators = True
        self.while_extra = 2
        self.opaque_raises = False
        self.trusted = set()
        install_builtins(self)

    def contract_for(self, fn): return self.contracts.get(fn)

    def model_for(self, o):
        try: m = self.models.get(host_rid(o))
        except TypeError: return None
        return m

    def model(self, o, fn): self.models[host_rid(o)] = fn

    def is_pure(self, o):
        try: return o in PURE
        except TypeError: return False

    # ---------------------------------------------------------------- opaque calls
    def call_opaque(self, m, f, args, kwargs, kwrest):
        raise Unsupported('call of an unknown callable')

    # ---------------------------------------------------------------- strings
    def format_percent(self, m, a, b):
        parts = [a] + (b.items if isinstance(b, T) else [b])
        if isinstance(a, C):
            # exact when only %s / %r / %d specs
            import re
            specs = re.findall(r'%([a-zA-Z%])', a.v)
            vals = list(b.items) if isinstance(b, T) else [b]
            if all(s in 'sr' or s == 'd' and m.pytype(m.force(v)) is int for s, v in zip(specs, vals)) and len(specs) == len(vals) and '%%' not in a.v:
                lits = re.split(r'%[a-zA-Z]', a.v)
                out = [C(lits[0])]
                for s, v, l in zip(specs, vals, lits[1:]):
                    out.append(m.repr_(v) if s == 'r' else m.str_(v))
                    out.append(C(l))
                return m.concat_strs([p for p in out if not (isinstance(p, C) and p.v == '')] or [C('')])
        return m.fresh_str('fmt')

    def str_repeat(self, m, s, k):
        k = m.force(k)
        if isinstance(s, C) and isinstance(k, C): return C(s.v * k.v)
        f = ufun('repeat', STR, I, STR)
        t = f(zstr(s), zint(k))
        if isinstance(s, C) and len(s.v) == 1:
            kk = zint(k)
            m.assume(z3.Length(t) == z3.If(kk > 0, kk, 0))
            i = z3.Int('ri')
            m.assume(z3.InRe(t, z3.Star(z3.Re(s.v))))
        return SStr(t)

    def slice_bounds(self, m, sl, n):
        """python slice semantics with step 1: (lo, hi) as z3 Int terms"""
        if not (sl.st is NONE or isinstance(sl.st, C) and sl.st.v in (None, 1)): raise Unsupported('slice step')
        def norm(x, dflt):
            x = m.force(x)
            if x is NONE or isinstance(x, C) and x.v is None: return dflt
            if isinstance(x, C):
                if x.v >= 0: return z3.If(n < x.v, n, z3.IntVal(x.v)) if not isinstance(n, int) else z3.IntVal(min(n, x.v))
                return z3.If(n + x.v < 0, z3.IntVal(0), n + x.v) if not isinstance(n, int) else z3.IntVal(max(0, n + x.v))
            t = zint(x)
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n if not isinstance(n, int) else z3.IntVal(n), t))
        zn = z3.IntVal(n) if isinstance(n, int) else n
        return norm(sl.lo, z3.IntVal(0)), norm(sl.hi, zn)

    def str_getitem(self, m, o, i):
        if isinstance(o, C) and isinstance(i, SliceV) and all(isinstance(m.force(x), C) for x in (i.lo, i.hi, i.st)):
            return C(o.v[slice(*i.concrete(m))])
        s = zstr(o); n = z3.Length(s)
        if isinstance(i, SliceV):
            if isinstance(i.st, C) and i.st.v not in (None, 1): raise Unsupported('string slice step')
            lo, hi = self.slice_bounds(m, i, n)
            return mkstr(z3.simplify(z3.If(hi > lo, z3.SubString(s, lo, hi - lo), z3.StringVal(''))))
        i = m.force(i)
        t = zint(i); t = z3.If(t < 0, t + n, t)
        if not m.ctx.branch(z3.And(t >= 0, t < n)): m.raise_(IndexError, C('string index'))
        return mkstr(z3.simplify(z3.SubString(s, t, 1)))

    def bytes_getitem(self, m, o, i):
        if isinstance(o, C) and not isinstance(i, SliceV) and isinstance(i, C): return C(o.v[i.v])
        raise Unsupported('bytes index')

    # ---------------------------------------------------------------- lists / tuples
    def stuple_getitem(self, m, o, i):
        n = m.tuple_len(o)
        if isinstance(i, SliceV):
            parts = [m.force(x) for x in (i.lo, i.hi, i.st)]
            for j in range(0, 40):
                if m.ctx.quick(n == j) is True or m.ctx.must(n == j):
                    return m.getitem(T([m.tuple_get(o, q) for q in range(j)]), i)
            # open-ended or bounded slice of a tuple of unknown length
            if all(isinstance(p, C) for p in parts) and parts[2].v in (None, 1):
                lo, hi = parts[0].v or 0, parts[1].v
                if lo >= 0 and hi is not None and hi >= 0:
                    w = hi - lo
                    if m.ctx.branch(n >= hi): return T([m.tuple_get(o, q) for q in range(lo, hi)])
                if lo >= 0 and hi is None:
                    t = m.ctx.fresh('tslice', V); m.setkind(t, m.kind(o))
                    m.assume([V.is_ref(t), V.rid(t) < OLD_MAX, V.rid(t) >= 0])
                    m.assume(tlen(V.rid(t)) == z3.If(n > lo, n - lo, 0))
                    q = z3.Int('q')
                    m.assume(z3.ForAll([q], telem(V.rid(t), q) == telem(V.rid(o.t), q + lo), patterns=[telem(V.rid(t), q)]))
                    return S(t)
            raise Unsupported('slice of a symbolic tuple')
        i = m.force(i)
        if isinstance(i, C):
            if i.v >= 0:
                if not m.ctx.branch(n > i.v): m.raise_(IndexError, C('tuple index'))
                return m.tuple_get(o, i.v)
            if not m.ctx.branch(n >= -i.v): m.raise_(IndexError, C('tuple index'))
            return m.tuple_get(o, z3.simplify(n + i.v))
        t = zint(i)
        if not m.ctx.branch(z3.And(t < n, t >= 0)): raise Unsupported('symbolic tuple index')
        return m.tuple_get(o, t)

    def list_getitem(self, m, o, i):
        l = m.lstate(o)
        if isinstance(i, SliceV):
            if l.n is None:
                parts = [m.force(x) for x in (i.lo, i.hi, i.st)]
                if all(isinstance(p, C) for p in parts):
                    return m.new_list(l.items[slice(*[p.v for p in parts])])
                if parts[2] is NONE:
                    lo, hi = self.slice_bounds(m, i, len(l.items))
                    for a in range(len(l.items) + 1):
                        for b in range(len(l.items) + 1):
                            if m.ctx.branch(z3.And(lo == a, hi == b)): return m.new_list(l.items[a:b])
            r = self.list_slice_hook(m, o, i)
            if r is not None: return r
            st = m.force(i.st)
            if i.lo is NONE and i.hi is NONE and (st is NONE or isinstance(st, C) and st.v in (1, -1)):
                sq = m.iter_list(o); r = m.new_list([])
                get = sq.get if st is NONE or st.v == 1 else (lambda j, n=sq.n, g=sq.get: g(n - 1 - j))
                m.lists[m.key(r, m.lists)] = LState([], sq.n, get); return r
            lo, hi = self.slice_bounds(m, i, l.n + len(l.items) if l.items else l.n)
            if l.items or l.get is None: raise Unsupported('slice of a symbolic list')
            r = m.alloc(list); k = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            m.lists[r.addr] = LState([], k, lambda q, g=l.get, lo=z3.simplify(lo): g(z3.simplify((z3.IntVal(q) if isinstance(q, int) else q) + lo)), None); return r
        i = m.force(i)
        if l.n is None:
            if isinstance(i, C):
                try: return l.items[i.v]
                except IndexError: m.raise_(IndexError, C('list index'))
            t = zint(i)
            for j in range(-len(l.items), len(l.items)):
                if m.ctx.branch(t == j): return l.items[j]
            m.raise_(IndexError, C('list index'))
        n = l.n + len(l.items)
        if isinstance(i, C) and i.v < 0 and -i.v <= len(l.items): return l.items[i.v]
        t = zint(i); t = z3.simplify(z3.If(t < 0, t + n, t))
        if not m.ctx.branch(z3.And(t >= 0, t < n)): m.raise_(IndexError, C('list index'))
        if l.items:
            if m.ctx.branch(t >= l.n):
                for j in range(len(l.items)):
                    if m.ctx.branch(t == l.n + j): return l.items[j]
        return l.get(t)

    def list_slice_hook(self, m, o, i): return None

    def list_setitem(self, m, o, i, x):
        l = m.lstate(o)
        if isinstance(i, SliceV):
            if l.n is None and all(isinstance(m.force(p), C) for p in (i.lo, i.hi, i.st)):
                l.items[slice(*i.concrete(m))] = m.finite(x); m.wrote('list', o); return
            raise Unsupported('list slice assignment')
        i = m.force(i)
        if l.n is None:
            if isinstance(i, C):
                try: l.items[i.v] = x; m.wrote('list', o); return
                except IndexError: m.raise_(IndexError, C('list assignment index'))
            for j in range(-len(l.items), len(l.items)):
                if m.ctx.branch(zint(i) == j): l.items[j] = x; m.wrote('list', o); return
            m.raise_(IndexError, C('list assignment index'))
        t = zint(i); n = l.n + len(l.items)
        t = z3.simplify(z3.If(t < 0, t + n, t))
        if not m.ctx.branch(z3.And(t >= 0, t < n)): m.raise_(IndexError, C('list assignment index'))
        if l.items: raise Unsupported('assignment into symbolic list with suffix')
        old = l.get
        m.lists[m.key(o)] = LState([], l.n, lambda q, old=old, t=t, x=x: x if m.ctx.branch((z3.IntVal(q) if isinstance(q, int) else q) == t) else old(q), None)
        m.wrote('list', o)

    def list_delitem(self, m, o, i):
        l = m.lstate(o)
        if l.n is None:
            if isinstance(i, SliceV):
                del l.items[slice(*i.concrete(m))]; return
            i = m.force(i)
            if isinstance(i, C):
                try: del l.items[i.v]; m.wrote('list', o); return
                except IndexError: m.raise_(IndexError, C('list index'))
        raise Unsupported('del list item')

    def bitop(self, m, op, a, b):
        f = ufun('bit' + op, I, I, I)
        return f(zint(a), zint(b))

    # ---------------------------------------------------------------- methods of builtin types
    def call_builtin_method(self, m, o, name, args, kwargs, owner=None):
        p = m.pytype(o)
        if isinstance(o, S) and p is None:
            w = m.force(o)
            if not isinstance(w, S): return self.call_builtin_method(m, w, name, args, kwargs, owner)
            k = m.kind(w)
            if name in k.methods: return k.methods[name](m, o, args, kwargs)
            p = m.pytype(w)
            if p is None:
                for c in k.isa:
                    if c in (dict, list, set, tuple): p = c
        if owner is not None and owner is object or name in ('__getattribute__',) and owner is object:
            if name == '__getattribute__':
                return self._object_getattribute(m, o, args[0])
            if name == '__setattr__':
                nm = m.force(args[0]); k = m.key(o, m.attrs, True); m.attrs.setdefault(k, {})[nm.v] = args[1]; return NONE
            if name == '__init__': return NONE
            if name == '__new__': return m.alloc(o.v)
        if isinstance(o, C) and isinstance(o.v, type):
            if name == 'mro' and not args: return m.new_list([C(c) for c in o.v.__mro__])
            if name in ('__subclasses__',): return m.new_list([C(c) for c in o.v.__subclasses__()])
        if name == '__new__' and isinstance(o, C) and o.v is object and args and isinstance(args[0], C) and isinstance(args[0].v, type): return m.alloc(args[0].v)
        if name == '__repr__' and not args and isinstance(o, C) and type(o.v).__module__ == 'builtins': return C(repr(o.v))
        if p is str: return self.str_method(m, o, name, args, kwargs)
        if isinstance(p, type) and issubclass(p, dict): return self.dict_method(m, o, name, args, kwargs)
        if p is list: return self.list_method(m, o, name, args, kwargs)
        if p in (set, frozenset): return self.set_method(m, o, name, args, kwargs)
        if p is bytes and name == 'decode': return self.bytes_decode(m, o, args)
        if p is tuple:
            if name == '__len__': return mkint(m.tuple_len(o))
            if name == 'index' and isinstance(o, (T, C)):
                for i, x in enumerate(m.iterate(o)):
                    if m.branch(mkbool(m.eq(x, args[0]))): return C(i)
                m.raise_(ValueError, C('tuple.index'))
            if name == '__getitem__': return m.getitem(o, args[0])
        if name == '__new__' and owner is not None: pass
        if isinstance(o, C) and is_concrete(o) and all(is_concrete(a) for a in args) and not kwargs and isinstance(o.v, (bytes, tuple, int, float, range, frozenset)):
            try: return wrap(getattr(o.v, name)(*[concrete(a) for a in args]))
            except Exception as e: m.raise_(type(e), *[C(x) for x in e.args])
        if p is int and name == 'bit_length':
            h = m.ghost.get('bit_length')
            if h is not None: return h(m, o)
            b, x = m.ctx.fresh('bit_length', I), zint(o)
            for j in range(96): m.assume(z3.Or(x >= (1 << j), x <= -(1 << j)) == (b > j))
            m.assume(b >= 0); return mkint(b)
        if isinstance(o, C) and (p, name) in self.obj_method_models: return self.obj_method_models[(p, name)](m, o, args, kwargs)
        if isinstance(o, O):
            h = self.obj_method_models.get((p, name))
            if h: return h(m, o, args, kwargs)
            if name == '__init__' : return NONE
        if isinstance(o, (O, S)) and name == '__reduce_ex__': pass
        raise Unsupported('method %s of %r' % (name, p or m.kind(o)))

    obj_method_models = {}

    def _object_getattribute(self, m, o, name):
        name = m.force(name)
        x = m.overlay_attr(o, name.v)
        if x is ABSENT or x is None:
            if x is None and isinstance(o, O): x = m.obj_attr(o, name.v)
            if x is ABSENT or x is None: m.raise_(AttributeError, name)
        return x

    def str_method(self, m, o, name, args, kwargs):
        args = [m.force(a) for a in args]
        if isinstance(o, C) and all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kwargs.values()) and name not in ('format',):
            try: r = getattr(o.v, name)(*[concrete(a) for a in args], **{k: concrete(x) for k, x in kwargs.items()})
            except Exception as e: m.raise_(type(e), *[C(x) for x in e.args])
            if isinstance(r, list): return m.new_list([C(x) for x in r])
            return wrap(r)
        if name == 'format':
            if isinstance(o, C) and all(is_concrete(a) for a in args) and not kwargs:
                try: return C(o.v.format(*[concrete(a) for a in args]))
                except Exception: pass
            if isinstance(o, C) and isinstance(o.v, str) and '**' not in kwargs:      # plain fields only: the str() of the arguments
                import string
                try: fields = list(string.Formatter().parse(o.v))
                except ValueError: fields = [('', '', '?', None)]
                out, auto = [], 0
                for text, name_, spec, conv in fields:
                    if text: out.append(C(text))
                    if name_ is None: continue
                    if spec or conv not in (None, 's', 'r'): break
                    if name_ == '': k, auto = auto, auto + 1
                    else: k = int(name_) if name_.isdigit() else name_
                    try: x = args[k] if isinstance(k, int) else m.force(kwargs[k])
                    except (IndexError, KeyError): break
                    out.append(m.repr_(x) if conv == 'r' else m.str_(x))
                else: return m.concat_strs(out)
            return m.fresh_str('format')
        s = zstr(o)
        if name in ('startswith', 'endswith'):
            p = args[0]
            if isinstance(p, T) or isinstance(p, C) and isinstance(p.v, tuple):
                ps = m.iterate(p)
                return mkbool(Or(*[(z3.PrefixOf if name == 'startswith' else z3.SuffixOf)(zstr(q), s) for q in ps]))
            if m.pytype(p) is not str: m.raise_(TypeError, C('startswith'))
            if len(args) > 1:
                raise Unsupported('startswith with start')
            return mkbool(z3.simplify((z3.PrefixOf if name == 'startswith' else z3.SuffixOf)(zstr(p), s)))
        if name == 'join':
            parts = m.finite(args[0])
            if not parts: return C('')
            out = []
            for i, x in enumerate(parts):
                x = m.force(x)
                if m.pytype(x) is not str: m.raise_(TypeError, C('join'))
                if i and not (isinstance(o, C) and o.v == ''): out.append(o)
                out.append(x)
            return m.concat_strs(out)
        if name == 'rstrip' and len(args) == 1 and isinstance(args[0], C) and isinstance(args[0].v, str):
            parts = self.str_parts(s, opaque=True)
            last = [p for p in parts if not isinstance(p, str) or p.rstrip(args[0].v)]
            if last and not isinstance(last[-1], tuple) and not (z3.is_expr(last[-1]) and last[-1].decl().name() == 'nospace_word') and not set(args[0].v) & set('0123456789abcdef'):
                while parts and isinstance(parts[-1], str):
                    q = parts[-1].rstrip(args[0].v)
                    if q: parts[-1] = q; break
                    parts.pop()
                z = [z3.StringVal(x) if isinstance(x, str) else x[1] if isinstance(x, tuple) else x for x in parts]
                return mkstr(z[0] if len(z) == 1 else z3.Concat(*z)) if z else C('')
        if name in ('lstrip', 'strip', 'rstrip', 'expandtabs', 'lower', 'upper', 'title'):
            f = ufun('str_%s_%s' % (name, '_'.join(repr(a) for a in args)), STR, STR)
            t = f(s)
            self.strip_axioms(m, name, args, s, t)
            return SStr(t)
        if name == 'replace' and len(args) == 2:
            f = ufun('str_replace_all', STR, STR, STR, STR)
            return SStr(f(s, zstr(args[0]), zstr(args[1])))
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            return self.str_split(m, o, name, args, kwargs)
        if name == 'find':
            return mkint(z3.IndexOf(s, zstr(args[0]), 0))
        if name == 'index':
            r = z3.IndexOf(s, zstr(args[0]), 0)
            if not m.ctx.branch(r >= 0): m.raise_(ValueError, C('substring not found'))
            return mkint(r)
        if name == 'count': 
            f = ufun('str_count', STR, STR, I); t = f(s, zstr(args[0]))
            m.assume([t >= 0, (t > 0) == z3.Contains(s, zstr(args[0]))])
            return SInt(t)
        if name == 'encode': return SByt(ufun('str_encode', STR, STR)(s))
        if name == '__len__': return SInt(z3.Length(s))
        if name == 'isspace':
            return mkbool(ufun('str_isspace', STR, B)(s))
        if name == 'isidentifier': return mkbool(ufun('str_isidentifier', STR, B)(s))
        if name == 'translate': return SStr(ufun('str_translate', STR, STR)(s))
        raise Unsupported('str.%s' % name)

    def strip_axioms(self, m, name, args, s, t):
        WS = ' \t\n\r\x0b\x0c' if not args or args[0] is NONE else (args[0].v if isinstance(args[0], C) else None)
        if name in ('lstrip', 'strip', 'rstrip') and WS:
            cls = z3.Union(*[z3.Re(c) for c in WS]) if len(WS) > 1 else z3.Re(WS)
            pre, post = ufun('strip_pre', STR, STR, STR), ufun('strip_post', STR, STR, STR)
            key = z3.StringVal(name + WS)
            a, b = pre(s, key), post(s, key)
            m.assume(s == z3.Concat(a, t, b))
            if name == 'lstrip': m.assume(b == '')
            if name == 'rstrip': m.assume(a == '')
            m.assume([z3.InRe(a, z3.Star(cls)), z3.InRe(b, z3.Star(cls))])
            if name != 'rstrip': m.assume(z3.Or(t == '', z3.Not(z3.InRe(z3.SubString(t, 0, 1), cls))))
            if name != 'lstrip': m.assume(z3.Or(t == '', z3.Not(z3.InRe(z3.SubString(t, z3.Length(t) - 1, 1), cls))))
            if name in ('lstrip','strip'): m.assume(z3.Length(a) == z3.Length(s) - z3.Length(t) - z3.Length(b))

    def bytes_decode(self, m, o, args):
        if isinstance(o, C): return C(o.v.decode(*[a.v for a in args]))
        return SStr(ufun('bytes_decode', STR, STR)(o.t))

    def str_parts(self, t, opaque=False):
        """a string known as literals and holes; a hole is one non-empty word of [0-9a-f] (decimal of a natural number, or a hex word)"""
        t = z3.simplify(t)
        def flat(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in t.children(): yield from flat(c)
            else: yield t
        kids = list(flat(t))
        out = []
        for k in kids:
            if z3.is_string_value(k): out.append(str_of(k))
            elif z3.is_app(k) and k.decl().name() in ('str.from_int', 'int.to.str', 'hexword', 'nospace_word'): out.append(k)
            elif opaque: out.append(('opaque', k))
            else: return None
        return out

    def split_parts(self, parts, sep):
        """split at sep (None: at whitespace), which must not be able to overlap a hole"""
        WS = ' \t\n\r\x0b\x0c'
        def inhole(h, text):          # can text occur inside the hole h?
            if h.decl().name() == 'nospace_word': return not any(c in WS for c in text)
            return all(c in '0123456789abcdef' for c in text)
        if sep is not None:
            for i, p in enumerate(parts):
                if isinstance(p, str): continue
                if inhole(p, sep): return None
                for k in range(1, len(sep)):
                    if inhole(p, sep[:k]) and i + 1 < len(parts) and (not isinstance(parts[i + 1], str) or parts[i + 1].startswith(sep[k:]) or sep[k:].startswith(parts[i + 1])): return None
                    if inhole(p, sep[k:]) and i and (not isinstance(parts[i - 1], str) or parts[i - 1].endswith(sep[:k]) or sep[:k].endswith(parts[i - 1])): return None
        pieces = [[]]
        for p in parts:
            if not isinstance(p, str): pieces[-1].append(p); continue
            if sep is not None:
                bits = p.split(sep)
                for j, b in enumerate(bits):
                    if j: pieces.append([])
                    if b: pieces[-1].append(b)
            else:
                cur = ''
                for c in p + '':
                    if c in WS:
                        if cur: pieces[-1].append(cur); cur = ''
                        if pieces[-1]: pieces.append([])
                    else: cur += c
                if cur: pieces[-1].append(cur)
        if sep is None: pieces = [p for p in pieces if p]
        def join(p):
            if not p: return C('')
            z = [z3.StringVal(x) if isinstance(x, str) else x for x in p]
            return mkstr(z[0] if len(z) == 1 else z3.Concat(*z))
        return [join(p) for p in pieces]

    def str_split(self, m, o, name, args, kwargs):
        s = zstr(o)
        if name == 'split' and len(args) <= 1 and not kwargs and (not args or isinstance(args[0], C)):
            parts = self.str_parts(s, opaque=True)
            ops = [i for i, p in enumerate(parts) if isinstance(p, tuple)]
            if not ops:
                r = self.split_parts(parts, args[0].v if args and args[0] is not NONE else None)
                if r is not None: return m.new_list(r)
            elif args and args[0] is not NONE and len(parts) > 1:
                # text of unknown contents, then a suffix known in parts: the last pieces are known if the separator cannot straddle
                j = ops[-1] + 1; sep = args[0].v
                if j < len(parts) and isinstance(parts[j], str) and sep in parts[j] and not any(parts[j].startswith(sep[k:]) for k in range(1, len(sep))):
                    r = self.split_parts(parts[j:], sep)
                    if r is not None and len(r) > 1:
                        n = ufun('split_prefix_n', STR, STR, I)(s, z3.StringVal(sep)); m.assume(n >= 1)
                        o2 = m.alloc(list); m.lists[o2.addr] = LState(r[1:], n, lambda i: SStr(ufun('split_piece', STR, STR, I, STR)(s, z3.StringVal(sep), z3.IntVal(i) if isinstance(i, int) else i)), None)
                        return o2
        if name in ('partition', 'rpartition') and isinstance(args[0], C):
            sep = args[0]
            parts = self.str_parts(s, opaque=True)
            if name == 'partition' and parts and isinstance(parts[0], str) and isinstance(sep.v, str) and sep.v in parts[0]:
                a, _, b = parts[0].partition(sep.v)
                rest = [z3.StringVal(b)] if b else []
                rest += [z3.StringVal(p) if isinstance(p, str) else p[1] if isinstance(p, tuple) else p for p in parts[1:]]
                return T([C(a), sep, C('') if not rest else mkstr(rest[0] if len(rest) == 1 else z3.Concat(*rest))])
            if not m.ctx.branch(z3.Contains(s, zstr(sep))):
                return T([o, C(''), C('')]) if name == 'partition' else T([C(''), C(''), o])
            if name == 'partition':
                i = z3.IndexOf(s, zstr(sep), 0)
            else:
                i = z3.LastIndexOf(s, zstr(sep))
            return T([SStr(z3.SubString(s, 0, i)), sep, SStr(z3.SubString(s, i + len(sep.v), z3.Length(s)))])
        if name in ('split', 'rsplit') and len(args) >= 1 and isinstance(args[0], C) and isinstance(args[0].v, str):
            sep = args[0].v
            mx = kwargs.get('maxsplit', args[1] if len(args) > 1 else None)
            if mx is not None and not isinstance(mx, C): raise Unsupported('maxsplit')
            # pieces as a symbolic list with an unbounded length; piece(s, sep, i)
            if mx is None:
                cnt = ufun('split_n', STR, STR, I); piece = ufun('split_piece', STR, STR, I, STR)
                z = z3.StringVal(sep)
                n = cnt(s, z)
                m.assume(n >= 1)
                m.assume((n == 1) == z3.Not(z3.Contains(s, z)))
                m.assume(z3.Implies(n == 1, piece(s, z, 0) == s))
                # last and first pieces
                li = z3.LastIndexOf(s, z)
                m.assume(z3.Implies(n > 1, piece(s, z, n - 1) == z3.SubString(s, li + len(sep), z3.Length(s))))
                m.assume(z3.Implies(n > 1, piece(s, z, 0) == z3.SubString(s, 0, z3.IndexOf(s, z, 0))))
                o2 = m.alloc(list)
                m.lists[o2.addr] = LState([], n, lambda i: mkstr(z3.simplify(piece(s, z, z3.IntVal(i) if isinstance(i, int) else i))), ('split', s, sep))
                return o2
            if mx.v == 1:
                z = z3.StringVal(sep)
                if not m.ctx.branch(z3.Contains(s, z)): return m.new_list([o])
                i = z3.IndexOf(s, z, 0) if name == 'split' else z3.LastIndexOf(s, z)
                return m.new_list([SStr(z3.SubString(s, 0, i)), SStr(z3.SubString(s, i + len(sep), z3.Length(s)))])
        if name in ('splitlines',) or name == 'split':
            tag = name + '_'.join(repr(a) for a in args)
            cnt = ufun('%s_n' % tag, STR, I); piece = ufun('%s_piece' % tag, STR, I, STR)
            n = cnt(s); m.assume(n >= 0)
            o2 = m.alloc(list)
            m.lists[o2.addr] = LState([], n, lambda i: SStr(piece(s, z3.IntVal(i) if isinstance(i, int) else i)), ('splitlines', s))
            return o2
        raise Unsupported('str.%s' % name)

    def dict_method(self, m, o, name, args, kwargs):
        p = m.pytype(o)
        if name == 'get':
            x = m.dget(o, args[0])
            return x if x is not ABSENT else (args[1] if len(args) > 1 else NONE)
        if name == '__getitem__':
            x = m.dget(o, args[0])
            if x is ABSENT:
                ms = next((k.__dict__['__missing__'] for k in getattr(p, '__mro__', ()) if '__missing__' in k.__dict__), None)
                if isinstance(ms, types.FunctionType): return m.call(C(ms), [o, args[0]], {})
                m.raise_(KeyError, args[0])
            return x
        if name == '__setitem__': m.dset(o, args[0], args[1]); return NONE
        if name == '__contains__': return mkbool(m.dict_has(o, args[0]))
        if name == '__delitem__': m.delitem(o, args[0]); return NONE
        if name == 'setdefault':
            x = m.dget(o, args[0])
            if x is ABSENT:
                x = args[1] if len(args) > 1 else NONE
                m.dset(o, args[0], x)
            return x
        if name == 'pop':
            x = m.dget(o, args[0])
            if x is ABSENT:
                if len(args) > 1: return args[1]
                m.raise_(KeyError, args[0])
            m.ddel(o, args[0]); return x
        if name in ('keys', 'values', 'items'):
            return m.alloc(type(getattr(p() if p in (dict, collections.OrderedDict) else {}, name)()), ('view', name, o))
        if name == 'copy':
            r = m.alloc(dict); m.dicts[r.addr] = m.dmap(o).copy(); return r
        if name == 'clear':
            d = m.dmap(o); d.base = None; d.writes[:] = []; m.wrote('dict', o); return NONE
        if name == 'update':
            if args: self.dict_update(m, o, args[0])
            if '**' in kwargs:
                raise Unsupported('update(**symbolic)')
            for k, x in kwargs.items(): m.dset(o, C(k), x)
            return NONE
        if name == '__len__':
            d = m.dmap(o)
            if d.base is None: return C(sum(1 for k, x in d.writes if x is not ABSENT))
            n = dsize(d.array()); m.assume(n >= 0); return SInt(n)
        if name == 'popitem':
            ks = m.dict_keys_list(o)
            if ks is None: raise Unsupported('popitem')
            if not ks: m.raise_(KeyError, C('popitem'))
            x = m.dget(o, ks[-1]); m.ddel(o, ks[-1]); return T([ks[-1], x])
        if name == '__init__':
            if args: self.dict_update(m, o, args[0])
            for k, x in kwargs.items(): m.dset(o, C(k), x)
            return NONE
        raise Unsupported('dict.%s' % name)

    def dict_update(self, m, o, src):
        if isinstance(src, S): src = m.force(src)
        p = m.pytype(src)
        if isinstance(p, type) and issubclass(p, dict) or isinstance(src, S) and (p is dict or m.kind(src).dictkinds):
            sd = m.dmap(src); dd = m.dmap(o)
            if sd.base is None:
                for k, x in list(sd.writes):
                    if x is not ABSENT: m.dset(o, k, x)
                return
            if dd.base is None and not dd.writes:
                m.dicts[m.key(o, m.dicts)] = sd.copy(); m.wrote('dict', o); return
            k = z3.Const('uk', V)
            a, b = dd.array(), sd.array()
            r = z3.Lambda([k], z3.If(OV.is_some(z3.Select(b, k)), z3.Select(b, k), z3.Select(a, k)))
            na = r
            m.dicts[m.key(o, m.dicts)] = DMap(na, [], dd.keykind or sd.keykind, None)
            m.wrote('dict', o)
            return
        if isinstance(p, type) and hasattr(p, 'keys') and not isinstance(src, O):
            raise Unsupported('update from %r' % p)
        for pair in m.finite(src):
            k, x = m.unpack(pair, 2)
            m.dset(o, k, x)

    def list_method(self, m, o, name, args, kwargs):
        l = m.lstate(o)
        if name == 'append': l.items.append(args[0]); m.wrote('list', o); return NONE
        if name == 'extend': l.items.extend(m.finite(args[0])); m.wrote('list', o); return NONE
        if name == 'pop':
            i = m.force(args[0]).v if args else -1
            if l.n is None:
                try: x = l.items.pop(i); m.wrote('list', o); return x
                except IndexError: m.raise_(IndexError, C('pop'))
            if i == -1 and l.items: m.wrote('list', o); return l.items.pop()
            if i == -1 and not l.items:
                if not m.ctx.branch(l.n > 0): m.raise_(IndexError, C('pop'))
                x = l.get(z3.simplify(l.n - 1)); m.lists[m.key(o)] = LState([], z3.simplify(l.n - 1), l.get, l.arr); m.wrote('list', o)
                return x
            if i == 0:
                if not m.ctx.branch(l.n > 0):
                    try: return l.items.pop(0)
                    except IndexError: m.raise_(IndexError, C('pop'))
                x = l.get(0); g = l.get
                m.lists[m.key(o)] = LState(list(l.items), z3.simplify(l.n - 1), lambda q, g=g: g(q + 1), None); m.wrote('list', o)
                return x
            raise Unsupported('list.pop(i)')
        if name == 'insert' and l.n is None and isinstance(args[0], C): l.items.insert(args[0].v, args[1]); return NONE
        if name == 'reverse' and l.n is None: l.items.reverse(); return NONE
        if name == 'reverse':
            sq = m.iter_list(o); l.items[:] = []; l.n, l.get = sq.n, (lambda j, n=sq.n, g=sq.get: g(n - 1 - j)); return NONE
        if name == 'remove' and l.n is None:
            for i, x in enumerate(l.items):
                if m.branch(mkbool(Or(m.is_(x, args[0]), m.eq(x, args[0])))): del l.items[i]; return NONE
            m.raise_(ValueError, C('remove'))
        if name == 'index' and l.n is None:
            for i, x in enumerate(l.items):
                if m.branch(mkbool(Or(m.is_(x, args[0]), m.eq(x, args[0])))): return C(i)
            m.raise_(ValueError, C('index'))
        if name == 'copy': r = m.alloc(list); m.lists[r.addr] = l.copy(); return r
        if name == '__len__': return mkint(len(l.items) if l.n is None else z3.simplify(l.n + len(l.items)))
        if name == 'clear': l.items[:] = []; l.n = None; return NONE
        if name == 'sort' and l.n is None and all(isinstance(x, C) for x in l.items) and not kwargs:
            l.items.sort(key=lambda x: x.v); return NONE
        if name == 'count' and l.n is None:
            return C(sum(1 for x in l.items if m.branch(mkbool(m.eq(x, args[0])))))
        if name == '__contains__': return mkbool(m.contains(o, args[0]))
        raise Unsupported('list.%s' % name)

    def set_method(self, m, o, name, args, kwargs):
        if name == 'add': m.set_add(o, args[0]); return NONE
        if name in ('discard', 'remove'):
            h = m.set_has(o, args[0])
            if name == 'remove' and not m.branch(mkbool(h)): m.raise_(KeyError, args[0])
            m.set_del(o, args[0]); return NONE
        if name in ('update', 'union'):
            r = o
            if name == 'union': r = m.alloc(set); m.sets[r.addr] = m.sstate(o).copy()
            for a in args:
                if m.pytype(a) in (set, frozenset):
                    s2 = m.sstate(a)
                    if s2.base is not None:
                        x = z3.Const('sx', V); d = m.sstate(r)
                        na = z3.Lambda([x], z3.Or(z3.Select(d.array(), x), z3.Select(s2.array(), x)))
                        m.sets[m.key(r, m.sets)] = SState(na, []); m.wrote('set', r)
                        continue
                if isinstance(a, S): a = m.force(a)
                if isinstance(a, S) and m.kind(a).dictkinds or isinstance(a, O) and a.addr in m.dicts:
                    sd = m.dmap(a)
                    if sd.base is not None:
                        x = z3.Const('sx', V); d = m.sstate(r); na = z3.Lambda([x], z3.Or(z3.Select(d.array(), x), OV.is_some(z3.Select(sd.array(), x))))
                        m.sets[m.key(r, m.sets)] = SState(na, []); m.wrote('set', r)
                        continue
                it = m.iterate(a)
                if isinstance(it, Seq) and it.src and it.src[0] == 'setarr':
                    x = z3.Const('sx', V); d = m.sstate(r); na = z3.Lambda([x], z3.Or(z3.Select(d.array(), x), z3.Select(it.src[1], x)))
                    m.sets[m.key(r, m.sets)] = SState(na, []); m.wrote('set', r)
                    continue
                if isinstance(it, Seq) and it.src and it.src[0] == 'list' and m.lstate(it.src[1]).arr is not None:
                    arr = m.lstate(it.src[1]).arr
                    if isinstance(arr, tuple) and arr[0] == 'setlist':
                        x = z3.Const('sx', V); d = m.sstate(r); na = z3.Lambda([x], z3.Or(z3.Select(d.array(), x), z3.Select(arr[1], x)))
                        m.sets[m.key(r, m.sets)] = SState(na, []); m.wrote('set', r)
                        continue
                for x in m.finite(it): m.set_add(r, x)
            return NONE if name == 'update' else r
        if name == 'copy': r = m.alloc(set); m.sets[r.addr] = m.sstate(o).copy(); return r
        if name in ('difference', 'intersection', 'issubset', 'isdisjoint'):
            so = m.sstate(o)
            if so.base is None:
                other = args[0]
                r = m.new_set()
                for x, b in list(so.writes):
                    if not b: continue
                    inn = m.branch(mkbool(m.contains(other, x)))
                    if name == 'difference' and not inn or name == 'intersection' and inn: m.set_add(r, x)
                    if name == 'issubset' and not inn: return FALSE
                    if name == 'isdisjoint' and inn: return FALSE
                return r if name in ('difference', 'intersection') else TRUE
            if name in ('difference', 'intersection') and len(args) == 1:        # of sets with any contents
                other = args[0] if m.pytype(args[0]) in (set, frozenset) else m.call(C(set), [args[0]], {})
                b = m.sstate(other).array(); r = m.alloc(set)
                m.sets[r.addr] = SState(z3.SetDifference(so.array(), b) if name == 'difference' else z3.SetIntersect(so.array(), b)); return r
        if name == '__len__':
            s = m.sstate(o)
            if s.base is None: return C(sum(1 for k, b in s.writes if b))
        if name == '__contains__': return mkbool(m.set_has(o, args[0]))
        if name == 'pop':
            s = m.sstate(o)
            if s.base is None:
                for i, (k, b) in enumerate(s.writes):
                    if b: del s.writes[i]; return k
                m.raise_(KeyError, C('pop'))
        raise Unsupported('set.%s' % name)


# ------------------------------------------------------------------------------------------ builtins
def install_builtins(env):
    M_ = env.model

    def b_isinstance(m, a, kw):
        x, c = a
        if isinstance(c, T): return mkbool(Or(*[m.truth(b_isinstance(m, [x, k], {})) for k in c.items]))
        if isinstance(c, C) and isinstance(c.v, tuple): return mkbool(Or(*[m.truth(b_isinstance(m, [x, C(k)], {})) for k in c.v]))
        if isinstance(c, C) and isinstance(c.v, types.UnionType): return mkbool(Or(*[m.truth(b_isinstance(m, [x, C(k)], {})) for k in c.v.__args__]))
        if isinstance(c, C) and isinstance(c.v, type):
            return mkbool(m.isinst_formula(x, c.v))
        if isinstance(c, S):
            f = ufun('isinst', V, V, B); return mkbool(f(term(x), term(c)))
        raise Unsupported('isinstance with %r' % (c,))
    M_(isinstance, b_isinstance)

    def b_issubclass(m, a, kw):
        x, c = a
        if isinstance(c, T): return mkbool(Or(*[m.truth(b_issubclass(m, [x, k], {})) for k in c.items]))
        if isinstance(c, C) and isinstance(c.v, tuple): return mkbool(Or(*[m.truth(b_issubclass(m, [x, C(k)], {})) for k in c.v]))
        if isinstance(x, C) and isinstance(c, C):
            try: return C(issubclass(x.v, c.v))
            except TypeError as e: m.raise_(TypeError, C(str(e)))
        if isinstance(c, C) and isinstance(x, S):
            w = m.force(x)
            f = m.isinst_formula(w, type)
            if not m.branch(mkbool(f)): m.raise_(TypeError, C('issubclass() arg 1 must be a class'))
            return mkbool(ufun('subclass_%s_%d' % (c.v.__name__, -host_rid(c.v)), V, B)(term(w)))
        raise Unsupported('issubclass')
    M_(issubclass, b_issubclass)

    def b_bytes(m, a, kw):
        x = m.force(a[0]) if a else None
        if x is not None and m.pytype(x) is str and not isinstance(x, C) and len(a) == 2: return m.call_method(x, 'encode', list(a[1:]))
        if all(isinstance(m.force(y), C) for y in a) and not kw:
            try: return C(bytes(*[m.force(y).v for y in a]))
            except Exception as e: m.raise_(type(e), C(str(e)))
        raise Unsupported('bytes()')
    M_(bytes, b_bytes)

    def b_len(m, a, kw):
        x = m.force(a[0])
        p = m.pytype(x)
        if isinstance(x, (T,)): return C(len(x.items))
        if p is str: return mkint(z3.Length(zstr(x))) if not isinstance(x, C) else C(len(x.v))
        if isinstance(x, SByt): return SInt(z3.Length(x.t))
        if isinstance(x, C) and not isinstance(x.v, (dict, list, set)):
            try: return C(len(x.v))
            except TypeError: m.raise_(TypeError, C('no len()'))
        if isinstance(x, O) and isinstance(m.objs[x.addr].meta, tuple) and m.objs[x.addr].meta[:1] == ('view',):
            return env.dict_method(m, m.objs[x.addr].meta[2], '__len__', [], {})
        if isinstance(p, type) and issubclass(p, dict): return env.dict_method(m, x, '__len__', [], {})
        if p is list: return env.list_method(m, x, '__len__', [], {})
        if p in (set, frozenset): return env.set_method(m, x, '__len__', [], {})
        if p is tuple: return mkint(m.tuple_len(x))
        if p in (int, bool, type(None)): m.raise_(TypeError, C('no len()'))
        if isinstance(x, S):
            k = m.kind(x)
            if k.length: return k.length(m, x)
        if isinstance(x, O) and isinstance(p, type) and isinstance(_mro_dict(p).get('__len__'), types.FunctionType):
            return m.call_method(x, '__len__', [])
        raise Unsupported('len of %r' % (p or m.kind(x),))
    M_(len, b_len)

    def b_getattr(m, a, kw):
        n = m.force(a[1])
        if not isinstance(n, C):
            h = m.ghost.get('getattr_hook')
            if h: return h(m, a)
            if m.pytype(a[0]) is types.ModuleType and (isinstance(n, SStr) or m.pytype(n) is str):     # an entry of its namespace
                r = m.dget(m.getattr(a[0], '__dict__'), n)
                if r is not ABSENT: return r
                if len(a) > 2: return a[2]
                m.raise_(AttributeError, n)
            raise Unsupported('getattr with a symbolic name')
        r = m.lookup_attr(a[0], n.v)
        if r is ABSENT:
            if len(a) > 2: return a[2]
            m.raise_(AttributeError, n)
        return r
    M_(getattr, b_getattr)

    def b_hasattr(m, a, kw):
        n = m.force(a[1])
        if not isinstance(n, C):
            h = m.ghost.get('hasattr_hook')
            if h: return h(m, a)
            raise Unsupported('hasattr with a symbolic name')
        return C(m.lookup_attr(a[0], n.v) is not ABSENT)
    M_(hasattr, b_hasattr)

    def b_setattr(m, a, kw):
        n = m.force(a[1])
        if not isinstance(n, C):
            h = m.ghost.get('setattr_hook')
            if h: return h(m, a)
            raise Unsupported('setattr with a symbolic name')
        m.setattr(a[0], n.v, a[2]); return NONE
    M_(setattr, b_setattr)

    def b_delattr(m, a, kw):
        n = m.force(a[1])
        if not isinstance(n, C): raise Unsupported('delattr with a symbolic name')
        m.delattr(a[0], n.v); return NONE
    M_(delattr, b_delattr)

    def b_type(m, a, kw):
        if len(a) == 1: return m.type_val(a[0])
        h = m.ghost.get('type_hook')
        if h: return h(m, a, kw)
        raise Unsupported('type(...) call')
    M_(type, b_type)

    def b_id(m, a, kw):
        x = a[0]
        t = z3.simplify(idof(term(x)))
        for t2, tx in m.ghost.setdefault('ids', []):
            if not z3.eq(tx, term(x)): m.assume((t == t2) == (term(x) == tx))
        m.ghost['ids'].append((t, term(x)))
        return SInt(t)
    M_(id, b_id)

    def b_callable(m, a, kw):
        x = a[0]
        if isinstance(x, C): return C(callable(x.v))
        if isinstance(x, M): return TRUE
        if isinstance(x, O):
            p = m.objs[x.addr].pytype
            if isinstance(m.objs[x.addr].meta, Closure): return TRUE
            return C('__call__' in _mro_dict(p))
        if isinstance(x, S):
            w = m.force(x)
            if not isinstance(w, S): return FALSE
            if m.kind(w).call is not None: return TRUE
            p = m.pytype(w)
            if isinstance(p, type) and p is not type: return C('__call__' in _mro_dict(p))
            return mkbool(ufun('callable', V, B)(w.t))
        return FALSE
    M_(callable, b_callable)

    def b_dict(m, a, kw):
        r = m.alloc(dict); m.dicts[r.addr] = DMap()
        if a: env.dict_update(m, r, a[0])
        rest = kw.pop('**', None) if '**' in kw else None
        if rest is not None:
            if m.dmap(r).writes or m.dmap(r).base is not None: raise Unsupported('dict(x, **symbolic)')
            m.dicts[r.addr] = rest.copy()
        for k, x in kw.items(): m.dset(r, C(k), x)
        return r
    M_(dict, b_dict)

    def b_list(m, a, kw):
        if not a: return m.new_list()
        it = m.iterate(a[0])
        if isinstance(it, list): return m.new_list(it)
        if it.src and it.src[0] == 'list':
            r = m.alloc(list); m.lists[r.addr] = m.lstate(it.src[1]).copy(); return r
        if it.src and it.src[0] == 'set':
            r = m.alloc(list); m.lists[r.addr] = LState([], m.ctx.fresh('setlen', I), None, ('setlist', m.sstate(it.src[1]).array())); return r
        if it.get is not None:
            r = m.alloc(list); m.lists[r.addr] = LState([], it.n, it.get, it.src); return r
        return m.new_list(m.finite(it))
    M_(list, b_list)

    def b_tuple(m, a, kw):
        if not a: return T([])
        if isinstance(a[0], S) and m.pytype(a[0]) is tuple: return a[0]
        it = m.iterate(a[0])
        if isinstance(it, list): return T(it)
        if it.get is not None and it.src and it.src[0] == 'list':
            t = m.ctx.fresh('tup', V)
            m.setkind(t, K_TUPLE); m.assume([V.is_ref(t), V.rid(t) < OLD_MAX, V.rid(t) >= 0, tlen(V.rid(t)) == it.n])
            q = z3.Int('q')
            try:
                m.assume(z3.ForAll([q], telem(V.rid(t), q) == term(it.get(q)), patterns=[telem(V.rid(t), q)]))
            except PathEnd: raise
            return S(t)
        return T(m.finite(it))
    M_(tuple, b_tuple)

    def b_set(m, a, kw):
        if not a: return m.new_set()
        if m.pytype(a[0]) in (set, frozenset):
            r = m.alloc(set); m.sets[r.addr] = m.sstate(a[0]).copy(); return r
        it = m.iterate(a[0]) if not isinstance(a[0], (It, Lazy)) else None
        if isinstance(it, Seq) and it.src and it.src[0] == 'dict' and it.src[2] == 'keys':      # the domain of a dict
            r = m.alloc(set); m.sets[r.addr] = SState(z3.Map(OV.is_some, it.src[1])); return r
        r = m.new_set()
        env.set_method(m, r, 'update', [a[0]], {})
        return r
    M_(set, b_set)
    def b_frozenset(m, a, kw):
        r = b_set(m, a, kw); m.objs[r.addr].pytype = frozenset; return r
    M_(frozenset, b_frozenset)

    def b_str(m, a, kw):
        if not a: return C('')
        return m.str_(a[0])
    M_(str, b_str)
    M_(repr, lambda m, a, kw: m.repr_(a[0]))

    def b_bool(m, a, kw): return mkbool(m.truth(a[0])) if a else FALSE
    M_(bool, b_bool)

    def b_int(m, a, kw):
        x = m.force(a[0]) if a else C(0)
        base = kw.get('base', a[1] if len(a) > 1 else None)
        if base is not None and isinstance(x, SStr):
            ps = env.str_parts(x.t, opaque=True)
            if isinstance(base, C) and base.v == 16 and len(ps) in (1, 2) and (len(ps) == 1 or ps[0] in ('0x', '0X')) and z3.is_app(ps[-1]) and ps[-1].decl().name() == 'hexword':
                return mkint(ps[-1].arg(0))
            if m.ctx.branch(ufun('int_parses_base', STR, B)(x.t)): return SInt(ufun('int_of_str_base', STR, I)(x.t))
            m.raise_(ValueError, C('int()'))
        if base is not None and isinstance(x, C):
            try: return C(int(x.v, base.v))
            except Exception as e: m.raise_(type(e), C(str(e)))
        if isinstance(x, C):
            try: return C(int(x.v, *[b.v for b in a[1:]]))
            except Exception as e: m.raise_(type(e), C(str(e)))
        if isinstance(x, (SInt, SBool)): return mkint(zint(x))
        if isinstance(x, SStr) and len(a) == 1:
            t = z3.simplify(x.t)
            if z3.is_app(t) and t.decl().name() in ('str.from_int', 'int.to.str') and m.ctx.must(t.arg(0) >= 0): return mkint(t.arg(0))
        if isinstance(x, SStr):
            if m.ctx.branch(ufun('int_parses', STR, B)(x.t)): return SInt(ufun('int_of_str', STR, I)(x.t))
            m.raise_(ValueError, C('int()'))
        h = m.ghost.get('int_hook')
        if h: return h(m, a)
        raise Unsupported('int(%r)' % (x,))
    M_(int, b_int)

    def b_any(m, a, kw):
        it = m.iterate(a[0])
        its = it if isinstance(it, list) else m.finite(it)
        return mkbool(Or(*[m.truth(x) for x in its]))
    M_(any, b_any)
    def b_all(m, a, kw):
        it = m.iterate(a[0])
        its = it if isinstance(it, list) else m.finite(it)
        return mkbool(And(*[m.truth(x) for x in its]))
    M_(all, b_all)

    def b_zip(m, a, kw):
        its = [m.iterate(x) for x in a]
        if all(isinstance(i, list) for i in its): return It([T(list(x)) for x in zip(*its)])
        seqs = [i for i in its if isinstance(i, Seq)]
        if len(seqs) == len(its):
            ns = [s.n for s in seqs]
            if all(m.ctx.must(ns[0] == n) for n in ns[1:]):
                return It(seq=Seq(ns[0], lambda i: T([s.get(i) for s in seqs]), ('zip', [s.src for s in seqs])))
        ls = [m.finite(i) for i in its]
        return It([T(list(x)) for x in zip(*ls)])
    M_(zip, b_zip)
    M_(enumerate, lambda m, a, kw: It([T([C(i), x]) for i, x in enumerate(m.finite(a[0]), (a[1].v if len(a) > 1 else kw['start'].v if 'start' in kw else 0))]))
    def b_reversed(m, a, kw):
        it = m.iterate(a[0])
        if isinstance(it, list): return It(list(reversed(it)))
        if it.get is not None: return It(seq=Seq(it.n, lambda i: it.get(it.n - 1 - i), ('rev', it.src)))
        return It(list(reversed(m.finite(it))))
    M_(reversed, b_reversed)
    def b_iter(m, a, kw):
        if len(a) > 1: raise Unsupported('iter(f, sentinel)')
        if isinstance(a[0], (It, Lazy)): return a[0]
        it = m.iterate(a[0]); return It(items=it) if isinstance(it, list) else It(seq=it)
    M_(iter, b_iter)
    def b_next(m, a, kw):
        it = a[0]
        if isinstance(it, Lazy):
            x = it.next(m)
            if x is not ABSENT: return x
            if len(a) > 1: return a[1]
            m.raise_(StopIteration)
        if isinstance(it, It) and it.items is not None:
            if it.pos < len(it.items): it.pos += 1; return it.items[it.pos - 1]
            if len(a) > 1: return a[1]
            m.raise_(StopIteration)
        if isinstance(it, It) and it.seq is not None and it.seq.get is not None:
            n = it.seq.n
            if m.ctx.branch(n > it.pos if not isinstance(n, int) else z3.BoolVal(n > it.pos)):
                it.pos += 1; return it.seq.get(it.pos - 1)
            if len(a) > 1: return a[1]
            m.raise_(StopIteration)
        if isinstance(it, O) and isinstance(m.objs[it.addr].pytype, type) and isinstance(_mro_dict(m.objs[it.addr].pytype).get('__next__'), types.FunctionType):
            return m.call_method(it, '__next__', [])
        raise Unsupported('next')
    M_(next, b_next)
    def b_map(m, a, kw):
        return It([m.call(a[0], [x], {}) for x in m.finite(a[1])])
    M_(map, b_map)
    def b_filter(m, a, kw):
        return It([x for x in m.finite(a[1]) if m.branch(x if a[0] is NONE else m.call(a[0], [x], {}))])
    M_(filter, b_filter)
    def b_range(m, a, kw):
        a = [m.force(x) for x in a]
        if all(isinstance(x, C) for x in a): return C(range(*[x.v for x in a]))
        lo, hi = (z3.IntVal(0), zint(a[0])) if len(a) == 1 else (zint(a[0]), zint(a[1]))
        if len(a) == 3 and not (isinstance(a[2], C) and a[2].v == 1): raise Unsupported('range step')
        return It(seq=Seq(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: mkint(z3.simplify(lo + i)), ('range',)))
    M_(range, b_range)
    def b_minmax(which):
        def f(m, a, kw):
            xs = m.finite(a[0]) if len(a) == 1 else a
            if not xs:
                if 'default' in kw: return kw['default']
                m.raise_(ValueError, C('empty'))
            r = m.force(xs[0])
            for x in xs[1:]:
                x = m.force(x)
                if isinstance(r, C) and isinstance(x, C): r = C(which(r.v, x.v)); continue
                p, q = zint(r), zint(x)
                r = mkint(z3.simplify(z3.If((p <= q) if which is min else (p >= q), p, q)))
            return r
        return f
    M_(min, b_minmax(min)); M_(max, b_minmax(max))
    def b_sorted(m, a, kw):
        xs = m.finite(a[0])
        if len(xs) <= 1: return m.new_list(xs)
        if all(isinstance(x, C) for x in xs) and not kw: return m.new_list(sorted(xs, key=lambda x: x.v))
        raise Unsupported('sorted')
    M_(sorted, b_sorted)
    def b_vars(m, a, kw):
        return m.getattr(a[0], '__dict__')
    M_(vars, b_vars)
    M_(print, lambda m, a, kw: NONE)
    M_(object, lambda m, a, kw: m.alloc(object))
    def b_hash(m, a, kw):
        if isinstance(a[0], C): return C(hash(a[0].v))
        return SInt(pyhash(term(a[0])))
    M_(hash, b_hash)
    def b_dir(m, a, kw):
        h = m.ghost.get('dir_hook')
        if h: return h(m, a)
        raise Unsupported('dir')
    M_(dir, b_dir)
    def b_import(m, a, kw):
        h = m.ghost.get('import_hook')
        if h: return h(m, a, kw)
        if a and isinstance(a[0], C):
            try: return C(__import__(a[0].v))
            except ImportError: m.raise_(ImportError, a[0])
        raise Unsupported('__import__')
    M_(__import__, b_import)
    M_(staticmethod, lambda m, a, kw: _wrapobj(m, staticmethod, a[0]))
    M_(classmethod, lambda m, a, kw: _wrapobj(m, classmethod, a[0]))
    M_(abc.abstractstaticmethod, lambda m, a, kw: _wrapobj(m, abc.abstractstaticmethod, a[0]))
    M_(abc.abstractclassmethod, lambda m, a, kw: _wrapobj(m, abc.abstractclassmethod, a[0]))
    def b_sum(m, a, kw):
        r = a[1] if len(a) > 1 else C(0)
        for x in m.finite(a[0]): r = m.binop(ast.Add(), r, x)
        return r
    M_(sum, b_sum)
    # warnings: an event; the filter state is not modelled unless a contract does
    def warn(m, a, kw):
        m.trace.append(('warn', a[0], a[1] if len(a) > 1 else kw.get('category', C(UserWarning))))
        return NONE
    M_(warnings.warn, warn)
    def unused(m, a, kw): return NONE
    M_(functools.wraps, lambda m, a, kw: m.alloc(types.FunctionType, lambda mm, aa, kk: aa[0]))
    # inspect predicates on symbolic values
    for pred, cls in ((inspect.isfunction, types.FunctionType), (inspect.ismethod, types.MethodType), (inspect.iscode, types.CodeType),
                      (inspect.isframe, types.FrameType), (inspect.istraceback, types.TracebackType), (inspect.isclass, type),
                      (inspect.ismodule, types.ModuleType), (inspect.isbuiltin, types.BuiltinFunctionType)):
        M_(pred, lambda m, a, kw, cls=cls: mkbool(m.isinst_formula(m.force(a[0]), cls)))
    M_(sys.exc_info, lambda m, a, kw: T([m.type_val(m.exc_stack[-1]), m.exc_stack[-1], NONE]) if m.exc_stack else T([NONE, NONE, NONE]))


def _wrapobj(m, cls, f):
    o = m.alloc(cls); m.attrs[o.addr] = {'__func__': f}; return o
