from oracle import *
import dill, types, sys, pickle
import dill._dill as D

FIELDS = ('argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames '
          'filename name qualname firstlineno linetable exceptiontable freevars cellvars').split()
LAYOUTS = {
 '3.11': FIELDS,
 'pypy3.11': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable freevars cellvars'.split(),
 '3.10': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno linetable freevars cellvars'.split(),
 '3.8': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno linetable freevars cellvars'.split(),
 '3.7': 'argcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno lnotab freevars cellvars'.split(),
 '3.11a': 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable endlinetable columntable exceptiontable freevars cellvars'.split(),
}


def sources():
    yield 'def f(): pass'
    yield 'def f(a, b, /, c, d=1, *args, e, g=2, **kw):\n    "doc"\n    x = a + b\n    try:\n        return x / c\n    except ZeroDivisionError as z:\n        with open(z) as q: yield q\n    finally:\n        del x'
    yield 'def f(n):\n    def g():\n        nonlocal n\n        n += 1\n        return n, f\n    return [g for _ in range(n)], {k: v for k, v in {}.items()}, (lambda: n)'
    yield 'async def f(s):\n    async with s as t:\n        async for u in t:\n            yield await u'
    yield 'class f:\n    __slots__ = ("a",)\n    def m(self): return super().m()'
    yield 'def f():\n    """%s"""\n    return """%s""", b"\\xff\\x00\\xe9", 1.5, 2j, (1, (2, (3,))), frozenset({1}), None, ..., -0.0' % ('é' * 10, 'ß' * 300)
    yield 'def f():\n' + '\n' * 300 + '    global zz\n    zz = 1\n' + ''.join('    x%d = %d\n' % (i, i) for i in range(300)) + '    raise ValueError'
    yield 'lambda *a, k=1: (a, k)'
    yield 'def f(x):\n    for i in x:\n        try:\n            yield from i\n        except (A, B):\n            continue\n        else:\n            break\n    assert x, "m"'
    yield 'def f(x):\n  match x:\n    case {"a": [1, *r]}: return r\n    case P(q=z): return z\n    case _: return'
    yield 'x = 1\ny: int = 2\nimport os.path as p'


def codes():
    for s in sources():
        stack = [compile(s, 'file-é.py', 'exec')]
        while stack:
            c = stack.pop(); yield c
            stack.extend(k for k in c.co_consts if isinstance(k, types.CodeType))


def same_code(a, b, what):
    for f in FIELDS:
        x, y = getattr(a, 'co_' + f), getattr(b, 'co_' + f)
        if f == 'consts':
            check(len(x) == len(y), what + ' consts')
            for p, q in zip(x, y):
                if isinstance(p, types.CodeType): same_code(p, q, what)
                else: check(repr(p) == repr(q) and type(p) is type(q), '%s const %r %r' % (what, p, q))
        else: eq(x, y, '%s co_%s' % (what, f))
    check(list(a.co_lines()) == list(b.co_lines()) and list(a.co_positions()) == list(b.co_positions()), what + ' lines')


@case()
def round_trip():
    for c in codes():
        for proto in range(0, 6):
            for kw in ({}, {'recurse': True}, {'byref': True}):
                same_code(dill.loads(dill.dumps(c, proto, **kw)), c, c.co_name)


@case()
def replaced_fields():
    def f(a, b=1, *, c): return a + c
    base = f.__code__
    for kw in (dict(co_name='nm', co_qualname='Q.nm'), dict(co_filename='other'), dict(co_firstlineno=77), dict(co_stacksize=base.co_stacksize + 9),
               dict(co_flags=base.co_flags | 0x100), dict(co_argcount=1, co_posonlyargcount=1, co_kwonlyargcount=2), dict(co_linetable=b''),
               dict(co_exceptiontable=b'\x80\xff'), dict(co_consts=(None, 'z', b'\xe9')), dict(co_names=('p', 'q')), dict(co_cellvars=('a',)),
               dict(co_freevars=('w',)), dict(co_qualname='only.this')):
        c = base.replace(**kw)
        same_code(dill.loads(dill.dumps(c)), c, str(sorted(kw)))
        same_code(dill.copy([c, c])[0], c, str(sorted(kw)))


@case()
def shared_once():
    c = compile('1', 'f', 'eval')
    a, b = dill.loads(dill.dumps((c, c)))
    check(a is b, 'shared code object')


def values(lay, c, text):
    out = []
    for f in lay:
        v = {'lnotab': c.co_linetable, 'endlinetable': b'\x81end', 'columntable': b'\x82col'}.get(f)
        if v is None: v = getattr(c, 'co_' + f)
        if isinstance(v, bytes) and text: v = 'd\0S\0' if f == 'code' else 'text-%s-é' % f
        out.append(v)
    return out


@case()
def stored_layouts():
    def outer(q):
        w = 1
        def f(a, b=2, /, c=3, *d, e, **g):
            "doc"
            z = (a, q, w, lambda: z)
            return z
        return f
    base = outer(1).__code__.replace(co_qualname='O.f', co_stacksize=99, co_exceptiontable=b'\x83exc', co_linetable=b'\x84lt', co_firstlineno=42)
    for nm, lay in LAYOUTS.items():
        for text in (False, True):
            for lead in (None, b'lead', 'lead', b'', ''):
                vals = values(lay, base, text)
                args = ([] if lead is None else [lead]) + vals
                c = D._create_code(*args)
                for f, v in zip(lay, vals):
                    if f in FIELDS or f == 'lnotab' and len(lay) == 16:
                        if text and f in ('code', 'linetable', 'exceptiontable', 'lnotab') and isinstance(v, str): v = v.encode()
                        if f == 'lnotab': f = 'linetable'
                        eq(getattr(c, 'co_' + f), v, '%s lead=%r co_%s' % (nm, lead, f))


@case()
def other_lengths():
    for n in range(1, 40):
        if n in (15, 16, 17, 18, 20): continue
        raises(D.UnpicklingError, D._create_code, *([1] * n))
    for n in range(1, 40):
        if n in (16, 17, 18, 19, 21): continue
        raises(D.UnpicklingError, D._create_code, *([b'x'] + [1] * (n - 1)))
        raises(D.UnpicklingError, D._create_code, *(['x'] + [1] * (n - 1)))
