# C22
T = 'dill/_dill.py'; L = 'dill/logger.py'
HEAD = '''
import dill, io, typing, logging, sys, os, tempfile
from dill import detect
from dill.logger import logger
class H(logging.Handler):
    def __init__(self): super().__init__(); self.r = []
    def emit(self, r): self.r.append((r.msg, getattr(r, 'depth', None)))
def tree(rs):
    st = []
    for msg, d in rs:
        if msg.startswith('#'): assert st and st.pop() == d, rs
        else: assert d == len(st) + 1, rs; st.append(d)
    assert not st, rs
h = H(); logger.addHandler(h)
'''
seed('c22-empty-tuple-type', 'C22', T, [('        pickler.save_reduce(_create_typing_tuple, (args,), obj=obj)\n        logger.trace(pickler, "# Ga1")\n', '        return pickler.save_reduce(_create_typing_tuple, (args,), obj=obj)\n')], HEAD + '''
with detect.trace(io.StringIO()): dill.dumps([typing.List[int]])
tree(h.r); h.r.clear()
with detect.trace(io.StringIO()): dill.dumps([typing.Tuple[()], {}])
tree(h.r)
''', 'typing.Tuple[()] among the objects pickled', 'the line opened for it is never closed, what follows is shown one deeper')
seed('c22-depth-reuse', 'C22', L, [("            pickler._trace_depth = 1\n", "            pickler._trace_depth = getattr(pickler, '_trace_depth', None) or 1\n")], HEAD + '''
class Bad:
    def __reduce__(self): raise ValueError
p = dill.Pickler(io.BytesIO())
with detect.trace(io.StringIO()):
    p.dump({'a': {}}); tree(h.r); h.r.clear()
    try: p.dump({'b': {'c': Bad()}})
    except ValueError: pass
    h.r.clear(); p.dump({'d': {}})
tree(h.r)
''', 'a pickler used again after a dump that failed within nested objects', 'the first line of the next dump is not at depth one')
seed('c22-path-not-closed', 'C22', L, [("            if not self.file_is_stream:\n                self.handler.close()", "            if isinstance(self.file, str):\n                self.handler.close()")], HEAD + '''
import pathlib
d = tempfile.mkdtemp()
try:
    for f in (os.path.join(d, 'a'), pathlib.Path(d) / 'b'):
        with detect.trace(f, mode='w'): s = [x for x in logger.handlers if isinstance(x, logging.FileHandler)][0].stream
        assert s.closed, f
finally:
    import shutil; shutil.rmtree(d)
''', 'a file given as a path object', 'the file opened by the context is never closed')
seed('c22-interrupt', 'C22', L, [("        adapter.setLevel(self.old_level)\n        if self.redirect:\n            adapter.removeHandler(self.handler)", "        if not exc_info[0] or issubclass(exc_info[0], Exception):\n            adapter.setLevel(self.old_level)\n        if self.redirect:\n            adapter.removeHandler(self.handler)")], HEAD + '''
for exc in (ValueError, KeyboardInterrupt):
    old = logger.level
    try:
        with detect.trace(io.StringIO()): raise exc
    except exc: pass
    assert logger.level == old, exc
''', 'the context left by KeyboardInterrupt, SystemExit or GeneratorExit', 'the log level is not restored')
