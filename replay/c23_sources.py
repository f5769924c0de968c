"""a program whose objects are stored with their source (run by c23.py)"""
import sys, os, types, random
import dill.temp as T
from dill.source import importable, getname
N = [0]
def eq(a, b, what=''):
    N[0] += 1
    assert a == b, '%s: got %a, expected %a' % (what, a, b)
def check(c, what=''):
    N[0] += 1
    assert c, what


def ascii_(x): return x + 1
def uni(): return 'é日本\U0001f600 ß'
def ünï(): return 1
class Kls:
    """é"""
    z = '日本'
    def m(self): return self.z
lam = lambda x: x * 2
lamu = lambda x: x + 'ø'
def many(a, b=1, *c, d='#NAME: zz', **e):
    """x
    #NAME: other
    """
    s = 'tab\there \\ "q" \' \x0b \f'
    return a, b, c, d, e, s
def outer(n):
    def inner(x): return x + n
    return inner
def crlf(): return 'a\r\nb'



def all_sources(d):
    objs = [(ascii_, lambda f: f(3)), (uni, lambda f: f()), (ünï, lambda f: f()), (Kls, lambda c: (c.__name__, c().m(), c.__doc__)), (lam, lambda f: f(4)), (lamu, lambda f: f('x')), (many, lambda f: (f(1), f(1, 2, 3, q=4), f.__doc__)), (outer, lambda f: f(2)(3)), (outer(5), lambda f: f(2)),
            (crlf, lambda f: f()), (len, lambda f: f([1])), (os.path.join, lambda f: f('a', 'b')), (types, lambda m: m is types), (dict, lambda c: c is dict), (random.Random, lambda c: c is random.Random)]
    for o, probe in objs:
        for al in ({}, {'alias': 'zed'}, {'alias': 'ünïcode'}, {'alias': '_'}, {'alias': None}, {'alias': ''}):
            name = al.get('alias') or getname(o); text = importable(o, alias=al.get('alias') or '')
            h = T.dumpIO_source(o, **al); s = h.getvalue().decode('utf-8'); check(s.startswith(text) and s[len(text):] == '\n#NAME: %s\n' % name, 'the source and its name: %r' % s[-60:]); eq(h.tell(), len(h.getvalue()))
            f = T.dump_source(o, dir=d, **al)
            with open(f.name, 'rb') as g: eq(g.read(), h.getvalue(), 'the file is complete')
            ref = probe(o)
            for r in (T.loadIO_source(h), T.loadIO_source(h.getvalue()), T.load_source(f), T.load_source(f.name), T.load_source(f, mode='rb'), T.load_source(f, mode='r'), T.loadIO_source(h, alias=name), T.load_source(f, alias=name), T.load_source(f, alias=name, mode='rb'), T.load_source(f, encoding='utf-8')):
                eq(probe(r), ref, 'loaded %s' % name)


all_sources(sys.argv[1])
# and as a module
import importlib.util
f = T.dump_source(uni)
sp = importlib.util.spec_from_file_location('mod', f.name); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
eq(mod.uni(), uni())
print(N[0])
