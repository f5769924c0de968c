from oracle import *
import dill, sys, os, random, itertools, types, importlib, builtins, textwrap
import dill.source as S
from dill.source import indent, outdent, _outdent, _getimport

BLANKS = ' \t\x0b\x0c\xa0\u2003'
PIECES = ['', ' ', '  ', '    ', '\t', ' \t', '\t ', '\t\t', '      \t', '        ', '\xa0 ', '\x0c', '\x0c  ', ' \x0b']
TEXTS = ['', 'x', 'if x:', '"""', '# c', 'a\tb', 'a \t', 'a  ', '\\', 'é', 'return [ 1,', 'a\rb', ')', 'z\u2028z', '"  "']


def split(line):
    """the indentation, the rest and the end of a line"""
    text = line.rstrip('\r\n') if not line.strip('\r\n' + BLANKS) else line
    end = line[len(text):]; rest = text.lstrip(BLANKS)
    return text[:len(text)-len(rest)], rest, end
def columns(blanks): return len(blanks.expandtabs())
def size(line): return columns(split(line)[0])


def outdented(old, new, k, what=''):
    """new is old without its first k columns of indentation (or all of it)"""
    b, rest, end = split(old); n = max(0, min(k, columns(b)))
    if not n: return eq(new, old, 'nothing to remove %s' % what)
    if '\t' not in b: return eq(new, b[n:] + rest + end, 'outdent by %d %s' % (n, what))
    check(new.endswith(rest + end), 'the text is kept: %r of %r %s' % (new, old, what))
    c = new[:len(new)-len(rest+end)]
    check(not c.strip(BLANKS) and columns(c) == columns(b) - n, 'columns left: %r of %r by %d %s' % (new, old, k, what))


def texts(rng, n, blanks=PIECES, ends=('',)):
    for i in range(n):
        own = rng.sample(blanks, rng.randrange(1, min(5, len(blanks)) + 1))
        yield [rng.choice(own) + rng.choice(TEXTS if rng.random() < .8 else ['']) + rng.choice(ends) for _ in range(rng.randrange(1, 7))]


def outdents(lines, k, all, call):
    """what outdent does with lines"""
    first = size(lines[0]); n = first if k is None or k > first or k < 0 else k
    old = list(lines); new = call()
    check(isinstance(new, list) and len(new) == len(old), 'the number of lines: %r of %r' % (new, old))
    for i, (a, b) in enumerate(zip(old, new)):
        if i and not all: eq(b, a, 'the other lines')
        else: outdented(a, b, n, 'line %d of %r spaces=%r all=%r' % (i, old, k, all))


def argumentsof(f, code, k, all):
    if k is None and all: return f(code)
    if all: return f(code, k)
    return f(code, spaces=k, all=all)


def run_outdents(blanks, ends=('',), n=1500, seed=0):
    rng = random.Random(Counter.seed + seed)
    for lines in texts(rng, n * (8 if Counter.tier == 'thorough' else 1), blanks, ends):
        k = rng.choice([None, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 100, -1, -3]); all = rng.random() < .8
        outdents(lines, k, all, lambda: argumentsof(outdent, '\n'.join(lines), k, all).split('\n'))


@case('outdent')
def _(): run_outdents([b for b in PIECES if '\t' not in b])
@case('outdent tabs')
def _(): run_outdents(PIECES)
@case('outdent line ends')
def _(): run_outdents([b for b in PIECES if '\t' not in b], ('', '\r', '\r'))


@case('outdent lines with their ends')
def _():
    rng = random.Random(Counter.seed)
    for lines in texts(rng, 1500 * (8 if Counter.tier == 'thorough' else 1), PIECES, ('\n', '\n', '\r\n')):
        if rng.random() < .5: lines[-1] = lines[-1].rstrip('\r\n')
        k = rng.choice([None, None, 0, 1, 2, 4, 8, 9, 100, -1]); all = rng.random() < .8
        outdents(lines, k, all, lambda: argumentsof(_outdent, list(lines), k, all))


SOURCE = '''
class Outer:
    def plain(self):
        x = 1

        return [x,

            2]
    class Inner:

        """doc

        more"""

        def method(self):
            def inner():

                return 5

            return inner
'''
TABBED = '''
class Tabbed:
	def tabbed(self):
		if self:

			return 1
		return 2

	class Deep:
	    	def mixed(self):
	            return [1,
			2,

2]
'''


@case('source without its indentation')
def _():
    with open('layout.py', 'w') as f: f.write(SOURCE + TABBED)
    sys.path.insert(0, os.getcwd())
    import layout
    from dill.source import getsource, getsourcelines
    for obj in (layout.Outer.plain, layout.Outer.Inner.method, layout.Tabbed.tabbed, layout.Tabbed.Deep.mixed, layout.Outer.Inner().method(), layout.Outer().plain):
        raw, n = getsourcelines(obj)
        outdents(raw, None, True, lambda: getsourcelines(obj, lstrip=True)[0])
        outdents(raw, None, True, lambda: getsource(obj, lstrip=True).splitlines(True))
        eq(getsourcelines(obj, lstrip=True)[1], n, 'the position')
        ns = {}; exec(getsource(obj, lstrip=True), ns); check(obj.__name__ in ns, 'the source can be executed')
    ns = {}; exec(outdent(''.join(getsourcelines(layout.Tabbed.tabbed)[0])), ns); eq((ns['tabbed'](0), ns['tabbed'](1)), (2, 1))


@case('indent')
def _():
    rng = random.Random(Counter.seed)
    import numpy
    for lines in texts(rng, 2500 * (8 if Counter.tier == 'thorough' else 1), PIECES, ('', '', '', '\r')):
        k = rng.choice([None, 0, 1, 2, 4, 8, -2, '', ' ', '\t', '  \t', '# ', '>>> ', True, numpy.int64(3)])
        code = '\n'.join(lines); new = (indent(code) if k is None else indent(code, k)).split('\n')
        by = '    ' if k is None else k if isinstance(k, str) else ' ' * int(k)
        want = [by + l if size(l) >= size(lines[0]) else l for l in lines]
        if not want[-1].strip(): want[-1] = ''
        eq(new, want, 'indent %r by %r' % (code, k))


@case('indent and outdent of programs')
def _():
    import inspect, json, textwrap, bisect, dis
    for mod in (textwrap, bisect, json, dis, S):
        code = inspect.getsource(mod)
        for k in (4, 1, '\t', 8):
            more = indent(code, k); back = outdent(more)
            eq(len(more.split('\n')), len(code.split('\n')), 'lines')
            for a, b in zip(code.split('\n'), back.split('\n')):
                check(a.strip() == b.strip() and size(a) == size(b), 'round trip: %r %r' % (a, b))


def imports(head, tail, alias, text, builtin=False):
    """the import string binds exactly the name"""
    want = getattr(importlib.import_module(head), tail) if head and head != '__main__' else importlib.import_module(tail) if not head else getattr(sys.modules['__main__'], tail)
    ns = {}; exec(text, ns); ns.pop('__builtins__', None)
    check(text.endswith('\n') and text.count('\n') == 1, 'one line: %r' % text)
    if not ns and not builtin and head in ('builtins', 'types'):  # a name that needs no import
        check(not alias or alias == tail, 'the alias is bound: %r' % text); return check(eval(text) is want, 'the builtin: %r' % text)
    eq(list(ns), [alias or tail], 'what %r binds' % text); check(ns[alias or tail] is want, 'what is imported by %r' % text)
    if head not in ('builtins', 'types'): eq(text, ('from %s import %s' % (head, tail) if head else 'import %s' % tail) + (' as %s' % alias if alias and alias != tail else '') + '\n', 'the string')


MODULES = ['os', 'os.path', 'collections', 'collections.abc', 'json.decoder', 'xml.dom.minidom', 'dill', 'dill.source', 'dill._dill', 'dill.detect', 'types', 'functools', 'numpy', 'numpy.linalg', 'importlib.machinery', 'builtins', 'email.mime.text', '_collections_abc', 'math', 'concurrent.futures.thread']


@case('import strings')
def _():
    rng = random.Random(Counter.seed)
    for head in MODULES:
        mod = importlib.import_module(head)
        names = [n for n in dir(mod) if n.isidentifier() and not (n.startswith('__') and n.endswith('__')) and n not in ('None', 'True', 'False') and not n in ('print_function',)]
        if head == 'types': names = [n for n in names if isinstance(getattr(mod, n), type)]
        if Counter.tier != 'thorough': names = rng.sample(names, min(25, len(names)))
        for tail in names:
            for alias in ('', tail, 'alias', 'x' + tail, '_', tail[:1], tail[1:]) if tail[1:].isidentifier() and not __import__('keyword').iskeyword(tail[1:]) else ('', tail, 'alias', 'x' + tail, tail + '_'):
                for verify in (True, False):
                    for builtin in (True, False):
                        t = _getimport(head, tail, alias, verify, builtin); imports(head, tail, alias, t, builtin)
                imports(head, tail, alias, _getimport(head, tail, alias), False)
    for tail in ('os', 'dill', 'numpy', 'math', 'collections'):
        for alias in ('', tail, 'alias'):
            for verify in (True, False): imports('', tail, alias, _getimport('', tail, alias, verify))
    sys.modules['__main__'].something = object()
    for alias in ('', 'something', 'other'): imports('__main__', 'something', alias, _getimport('__main__', 'something', alias))


@case('import strings of the special types')
def _():
    for head, tail, want in (('types', 'None', None), ('types', 'Ellipsis', Ellipsis), ('types', 'NotImplemented', NotImplemented), ('builtins', 'None', None), ('builtins', 'NotImplemented', NotImplemented), ('builtins', 'Ellipsis', Ellipsis),
                             ('builtins', 'ellipsis', type(...)), ('builtins', 'NoneType', type(None)), ('builtins', 'FunctionType', types.FunctionType), ('__builtin__', 'int', int), ('builtins', 'ModuleType', types.ModuleType), ('types', 'NoneType', type(None))):
        for alias in ('', tail, 'alias'):
            for verify in (True, False):
                for builtin in (False, True):
                    if tail == 'None' and head == 'builtins' and builtin: continue
                    if head == '__builtin__' and builtin: continue
                    t = _getimport(head, tail, alias, verify, builtin); ns = {}; exec(t, ns); ns.pop('__builtins__', None)
                    name = alias or tail
                    if tail == 'ellipsis' and not alias: name = 'EllipsisType'
                    if tail == 'ellipsis' and alias == tail: name = 'ellipsis'
                    if not ns and not (alias and alias != tail): check(eval(t) is want, t)
                    else: eq(list(ns), [name], 'what %r binds' % t); check(ns[name] is want, t)


@case('import strings are verified')
def _():
    os.makedirs('vpkg/sub'); sys.path.insert(0, os.getcwd())
    for f, t in (('vpkg/__init__.py', 'top = 1\nkept = 5\n'), ('vpkg/sub/__init__.py', 'kept = 6\n'), ('vpkg/sub/broken.py', 'raise KeyError("broken")\n'), ('vpkg/sub/gone.py', 'import nothing_like_this\n')):
        with open(f, 'w') as h: h.write(t)
    eq(_getimport('vpkg.sub', 'kept'), 'from vpkg.sub import kept\n'); eq(_getimport('vpkg.sub', 'top'), 'from vpkg import top\n')
    eq(_getimport('vpkg.sub.none', 'kept'), 'from vpkg.sub import kept\n'); eq(_getimport('vpkg.sub.gone', 'top', 'q'), 'from vpkg import top as q\n')
    eq(_getimport('vpkg.sub.gone', 'top', 'q', False), 'from vpkg.sub.gone import top as q\n')
    raises(KeyError, lambda: _getimport('vpkg.sub.broken', 'kept')); raises(ImportError, lambda: _getimport('', 'nothing_like_this'))
    raises(SyntaxError, lambda: _getimport('os', '<lambda>'))
    eq(_getimport('', 'nothing_like_this', 'a', verify=False), 'import nothing_like_this as a\n')
