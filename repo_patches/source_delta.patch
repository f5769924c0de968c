From c0f575773339afd5892aa79e629a62e47de18719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 01/54] fix: restore an unlocked RLock unlocked

owner is 0 (never None) for an unlocked RLock, so _acquire_restore((0, 0))
took the underlying lock and the copy could never be acquired.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..49dd03b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -819,7 +819,7 @@ def _create_lock(locked, *args): #XXX: ignores 'blocking'
 
 def _create_rlock(count, owner, *args): #XXX: ignores 'blocking'
     lock = RLockType()
-    if owner is not None:
+    if owner: # an unlocked RLock has no owner
         lock._acquire_restore((count, owner))
     if owner and not lock._is_owned():
         raise UnpicklingError("Cannot acquire lock")
-- 
2.43.0


From d905806cc16cf04b15b969fc9629e3840275fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 02/54] fix: tracing must not fail a dump to a stream that
 cannot tell()

tell() on a pipe raises OSError (io.UnsupportedOperation).
---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..22bb46b 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -151,7 +151,7 @@ class TraceAdapter(logging.LoggerAdapter):
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
                 size += len(frame)
-        except (AttributeError, TypeError):
+        except (AttributeError, TypeError, OSError):
             pass
         if size is not None:
             if not pushed_obj:
-- 
2.43.0


From 9efff5feb933147268a19521f16298c8ef0c97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 03/54] fix: leaving a nested trace() context restores the
 handlers found on entry

---
 dill/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 22bb46b..7a21c09 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -271,6 +271,7 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
         self.old_level = adapter.getEffectiveLevel()
@@ -280,6 +281,7 @@ class TraceManager(contextlib.AbstractContextManager):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.had_stderr:
+                adapter.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From fbef3daa2bae3f9413964b0488c9da63c2de9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 04/54] fix: pickles() leaves the warning filters as they were

It removed the user's own identical filter, and left its own filter behind
when the comparison raised.
---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 49dd03b..c7d248b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2187,9 +2187,9 @@ def pickles(obj,exact=False,safe=False,**kwds):
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
         except (AttributeError, TypeError):
-            warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            with warnings.catch_warnings():
+                warnings.filterwarnings('ignore') #FIXME: be specific
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
         if result: return True
-- 
2.43.0


From db1597963182cc67bc366a735b2465db2911038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 05/54] fix: parent() and parents() honour the ignore argument

---
 dill/pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index d27745f..17b96db 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -46,7 +46,7 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
     ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
     ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth)[::-1]
+    chain = find_chain(obj, predicate, edge_func, depth, ignore)[::-1]
     #XXX: should pop off obj... ?
     return chain
 
-- 
2.43.0


From c0d37ae38021ca80b45ce2cecb0da36f05b15e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 06/54] fix: do not load a namedtuple class as a different
 importable class

An importable class of the same name stands for the pickled one only if it
has the same fields.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index c7d248b..4694a1d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -995,7 +995,7 @@ def _create_dtypemeta(scalar_type):
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     class_ = _import_module(modulename + '.' + name, safe=True)
-    if class_ is not None:
+    if getattr(class_, '_fields', None) == tuple(fieldnames):
         return class_
     import collections
     t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
-- 
2.43.0


From 6e1e9da8ddbabdd5485fc8dfb853e4869046f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 07/54] fix: globalvars() terminates on mutually recursive
 functions

f -> g -> f through globals, or a closure referring to itself, raised
RecursionError (and so did dumps(f, recurse=True)).
---
 dill/detect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..0de25da 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -165,12 +165,15 @@ def referredglobals(func, recurse=True, builtin=False):
     """get the names of objects in the global scope referred to by func"""
     return globalvars(func, recurse, builtin).keys()
 
-def globalvars(func, recurse=True, builtin=False):
+def globalvars(func, recurse=True, builtin=False, _path=()):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
     if ismethod(func): func = func.__func__
     if isfunction(func):
+        if func in _path: # mutual recursion: func is already being searched
+            return {}
+        _path += (func,)
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
         orig_func, func = func, set()
@@ -180,8 +183,8 @@ def globalvars(func, recurse=True, builtin=False):
             except ValueError: # cell is empty
                 pass
             else:
-                _vars = globalvars(cell_contents, recurse, builtin) or {}
-                func.update(_vars) #XXX: (above) be wary of infinte recursion?
+                _vars = globalvars(cell_contents, recurse, builtin, _path) or {}
+                func.update(_vars)
                 globs.update(_vars)
         # get globals
         globs.update(orig_func.__globals__ or {})
@@ -196,7 +199,7 @@ def globalvars(func, recurse=True, builtin=False):
                 if nested_func is orig_func:
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(globalvars(nested_func, True, builtin, _path))
     elif iscode(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
-- 
2.43.0


From 98b34d9d6b24d13ce4127bba4f8744b9286152d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 08/54] fix: nestedglobals() finds globals used in nested class
 bodies

A class body loads globals with LOAD_NAME.  Also, an attribute or local
whose name contains '_GLOBAL' is not a global.
---
 dill/detect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index 0de25da..c97fb8d 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -150,7 +150,9 @@ def nestedglobals(func, recurse=True):
         except IndexError:
             pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line:
+        opname = line.split('(')[0] # excludes the names and constants
+        # LOAD_NAME is how a class body loads a global
+        if '_GLOBAL' in opname or 'LOAD_NAME' in opname:
             name = line.split('(')[-1].split(')')[0]
             if CAN_NULL:
                 names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-- 
2.43.0


From 69f40a70bdf9fb7c46540f7129378d12bbf781ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 09/54] fix: load_module_asdict() works for a runtime module

It raised KeyError ('__runtime__.<name>' is removed by load_module) and would
have returned the dictionary of another module than the one loaded.
---
 dill/session.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index db556c8..875af31 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -639,21 +639,23 @@ def load_module_asdict(
         file = _make_peekable(file)
         main_name = _identify_module(file)
         old_main = sys.modules.get(main_name)
-        main = ModuleType(main_name)
-        if update:
+        is_runtime_mod = main_name.startswith('__runtime__.')
+        main = ModuleType(main_name.partition('.')[-1] if is_runtime_mod else main_name)
+        if update and not is_runtime_mod:
             if old_main is None:
                 old_main = _import_module(main_name)
             main.__dict__.update(old_main.__dict__)
         else:
             main.__builtins__ = __builtin__
-        sys.modules[main_name] = main
-        load_module(file, **kwds)
+        if not is_runtime_mod:
+            sys.modules[main_name] = main
+        load_module(file, main, **kwds)
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
         try:
             if old_main is None:
-                del sys.modules[main_name]
+                sys.modules.pop(main_name, None)
             else:
                 sys.modules[main_name] = old_main
         except NameError:  # failed before setting old_main
-- 
2.43.0


From baa5dbea93a66cf9a34c3add40f5236f46a05f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 10/54] fix: find the referent of a weak proxy whatever its
 __str__ returns

---
 dill/_dill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 4694a1d..b08317d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1636,9 +1636,12 @@ def _proxy_helper(obj): # a dead proxy returns a reference to None
     try: _str = str(obj)
     except ReferenceError: # it's a dead proxy
         return id(None)
+    except Exception: # the referent's own __str__ failed
+        _str = ''
     if _str == _repr: return id(obj) # it's a repr
     try: # either way, it's a proxy from here
-        address = int(_str.rstrip('>').split(' at ')[-1], base=16)
+        # __str__ is the referent's own, and may be any text at all
+        address = int((_str if IS_PYPY else _repr).rstrip('>').split(' at ')[-1], base=16)
     except ValueError: # special case: proxy of a 'type'
         if not IS_PYPY:
             address = int(_repr.rstrip('>').split(' at ')[-1], base=16)
-- 
2.43.0


From 15640e6e17dab3fff4664028700b4c11af1c1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 11/54] fix: load_module() leaves the caller's unseekable
 stream open

---
 dill/session.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 875af31..ad6153c 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -19,6 +19,7 @@ class SecurityWarning(UserWarning):
     """Warning for insecure default temp file paths."""
     pass
 
+import io
 import re
 import os
 import sys
@@ -348,14 +349,18 @@ class _PeekableReader:
         except (AttributeError, OSError):
             raise NotImplementedError("stream is not peekable: %r", stream) from None
 
+class _BorrowingReader(io.BufferedReader):
+    """buffered reader that doesn't close the stream it reads from (on deletion)"""
+    def close(self):
+        pass
+
 def _make_peekable(stream):
     """return stream as an object with a peek() method"""
-    import io
     if hasattr(stream, 'peek'):
         return stream
     if not (hasattr(stream, 'tell') and hasattr(stream, 'seek')):
         try:
-            return io.BufferedReader(stream)
+            return _BorrowingReader(stream)
         except Exception:
             pass
     return _PeekableReader(stream)
-- 
2.43.0


From 1c4ccb022be2adf525097e8428cefacc666496e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 12/54] fix: load_module_asdict() of a submodule leaves the
 module alone

---
 dill/_dill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index b08317d..ff9c7a3 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1063,7 +1063,10 @@ def _import_module(import_name, safe=False):
             module = '.'.join(items[:-1])
             obj = items[-1]
             submodule = getattr(__import__(module, None, None, [obj]), obj)
-            if isinstance(submodule, (ModuleType, type)):
+            if isinstance(submodule, ModuleType):
+                # what's in sys.modules may not be the attribute of the parent
+                return sys.modules.get(import_name) or submodule
+            if isinstance(submodule, type):
                 return submodule
             return __import__(import_name, None, None, [obj])
         else:
-- 
2.43.0


From 1134e7fc4e25a7bc9fb3a1dcf27af415299110e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 13/54] fix: load_module_asdict() puts back a None entry of
 sys.modules

---
 dill/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index ad6153c..6c551e2 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -644,6 +644,7 @@ def load_module_asdict(
         file = _make_peekable(file)
         main_name = _identify_module(file)
         old_main = sys.modules.get(main_name)
+        blocked = main_name in sys.modules and old_main is None
         is_runtime_mod = main_name.startswith('__runtime__.')
         main = ModuleType(main_name.partition('.')[-1] if is_runtime_mod else main_name)
         if update and not is_runtime_mod:
@@ -659,7 +660,9 @@ def load_module_asdict(
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
         try:
-            if old_main is None:
+            if blocked:
+                sys.modules[main_name] = None
+            elif old_main is None:
                 sys.modules.pop(main_name, None)
             else:
                 sys.modules[main_name] = old_main
-- 
2.43.0


From 7ae3aed800de4f2ba0752c8bd036f3cfb9b0d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 14/54] fix: load_module() loads from any position of a
 buffered stream

---
 dill/session.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index 6c551e2..56a8ea9 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -365,13 +365,23 @@ def _make_peekable(stream):
             pass
     return _PeekableReader(stream)
 
+def _peek(file, n):
+    """peek at the next n bytes, of which file's buffer may hold only some"""
+    chunk = file.peek(n)
+    if len(chunk) < n and not isinstance(file, _PeekableReader):
+        try:
+            return _PeekableReader(file).peek(n)
+        except NotImplementedError:  # not seekable
+            pass
+    return chunk
+
 def _identify_module(file, main=None):
     """identify the name of the module stored in the given file-type object"""
     from pickletools import genops
     UNICODE = {'UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE'}
     found_import = False
     try:
-        for opcode, arg, pos in genops(file.peek(256)):
+        for opcode, arg, pos in genops(_peek(file, 256)):
             if not found_import:
                 if opcode.name in ('GLOBAL', 'SHORT_BINUNICODE') and \
                         arg.endswith('_import_module'):
-- 
2.43.0


From cdde17daa60d2f23dc094799a0350f8029c8873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 15/54] fix: a dictionary equal to the main module's is not
 stored as the latter

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index ff9c7a3..2e3da52 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1246,16 +1246,16 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj == pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
-    elif (not is_dill(pickler, child=False)) and (obj == _main_module.__dict__):
+    elif (not is_dill(pickler, child=False)) and (obj is _main_module.__dict__):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-    elif '__name__' in obj and obj != _main_module.__dict__ \
+    elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
             and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
-- 
2.43.0


From 74ca08a6a13653ec27b57a05e23e10c5495bab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 16/54] fix: pickling a dictionary does not import the module
 it names

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2e3da52..7cb2a72 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1257,7 +1257,7 @@ def save_module_dict(pickler, obj):
         logger.trace(pickler, "# D3")
     elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
-            and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
+            and obj is getattr(sys.modules.get(obj['__name__']), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c%s\n__dict__\n' % obj['__name__'], 'UTF-8'))
         logger.trace(pickler, "# D4")
-- 
2.43.0


From 49c27563cd55a3921d6ad259d8baa6a04fef645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 17/54] fix: a module in a directory named like the prefix and
 more is not builtin

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7cb2a72..e1e61c4 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1702,8 +1702,8 @@ def _is_builtin_module(module):
     # See https://github.com/uqfoundation/dill/issues/566
     return (
         any(
-            module.__file__.startswith(getattr(sys, name))
-            or rp(module.__file__).startswith(rp(getattr(sys, name)))
+            module.__file__.startswith(os.path.join(getattr(sys, name), ''))
+            or rp(module.__file__).startswith(os.path.join(rp(getattr(sys, name)), ''))
             for name in names
             if hasattr(sys, name)
         )
-- 
2.43.0


From 927ade00d860dbae16adc0f70ed299d302e52cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 18/54] fix: a class keeps what it defines as its base does,
 such as __hash__

---
 dill/_dill.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e1e61c4..9a21287 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1765,24 +1765,7 @@ def save_module(pickler, obj):
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
 # License: https://github.com/cloudpipe/cloudpickle/blob/master/LICENSE
 def _get_typedict_type(cls, clsdict, attrs, postproc_list):
-    """Retrieve a copy of the dict of a class without the inherited methods"""
-    if len(cls.__bases__) == 1:
-        inherited_dict = cls.__bases__[0].__dict__
-    else:
-        inherited_dict = {}
-        for base in reversed(cls.__bases__):
-            inherited_dict.update(base.__dict__)
-    to_remove = []
-    for name, value in dict.items(clsdict):
-        try:
-            base_value = inherited_dict[name]
-            if value is base_value and hasattr(value, '__qualname__'):
-                to_remove.append(name)
-        except KeyError:
-            pass
-    for name in to_remove:
-        dict.pop(clsdict, name)
-
+    """Retrieve a copy of the dict of a class without what type() adds to it"""
     if issubclass(type(cls), type):
         clsdict.pop('__dict__', None)
         clsdict.pop('__weakref__', None)
-- 
2.43.0


From bf80dc23ba11fb107d6498ad8ce3417cef989276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 19/54] fix: a function whose qualified name is its name keeps
 it

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 9a21287..a87d393 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2020,7 +2020,8 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
-        if obj.__qualname__ != obj.__name__:
+        # a new function is named by __name__, or by its code in Python >= 3.11
+        if not (obj.__name__ == obj.__qualname__ == getattr(obj.__code__, 'co_qualname', obj.__name__)):
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
             state_dict['__module__'] = obj.__module__
-- 
2.43.0


From 332fa55421dc6de64fcf9f3aa9d13869a35ed288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 20/54] fix: a function or class whose module cannot be
 imported or searched is stored by value

---
 dill/_dill.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index a87d393..87c7554 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1071,7 +1071,7 @@ def _import_module(import_name, safe=False):
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-    except (ImportError, AttributeError, KeyError):
+    except Exception:  # importing may raise anything
         if safe:
             return None
         raise
@@ -1096,11 +1096,11 @@ def _locate_function(obj, pickler=None):
             pickler and is_dill(pickler, child=False) and pickler._session and module_name == pickler._main.__name__:
         return False
     if hasattr(obj, '__qualname__'):
-        module = _import_module(module_name, safe=True)
         try:
+            module = _import_module(module_name)
             found, _ = _getattribute(module, obj.__qualname__)
-            return found is obj
-        except AttributeError:
+            return found is obj and module is sys.modules[module_name]
+        except Exception:
             return False
     else:
         found = _import_module(module_name + '.' + obj.__name__, safe=True)
-- 
2.43.0


From 85c2b8aa6f3ddbac4c64daf45483b56071b1a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:06 +0000
Subject: [PATCH 21/54] fix: pickle's own pickler can save a function with
 globals of its own

---
 dill/_dill.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 87c7554..cb4ddb7 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -605,7 +605,7 @@ def _create_function(fcode, fglobals, fname=None, fdefaults=None,
                      fclosure=None, fdict=None, fkwdefaults=None):
     # same as FunctionType, but enable passing __dict__ to new function,
     # __dict__ is the storehouse for attributes added after function creation
-    func = FunctionType(fcode, fglobals or dict(), fname, fdefaults, fclosure)
+    func = FunctionType(fcode, dict() if fglobals is None else fglobals, fname, fdefaults, fclosure)
     if fdict is not None:
         func.__dict__.update(fdict) #XXX: better copy? option to copy?
     if fkwdefaults is not None:
@@ -1999,6 +1999,9 @@ def save_function(pickler, obj):
             elif globs_copy is not None and obj.__module__ is not None and \
                     getattr(_import_module(obj.__module__, True), '__dict__', None) is globs_copy:
                 globs = globs_copy
+            # If nothing can be postponed, save the globals at once.
+            elif _postproc is None:
+                globs = globs_copy
             else:
                 globs = {'__name__': obj.__module__}
 
@@ -2023,7 +2026,8 @@ def save_function(pickler, obj):
         # a new function is named by __name__, or by its code in Python >= 3.11
         if not (obj.__name__ == obj.__qualname__ == getattr(obj.__code__, 'co_qualname', obj.__name__)):
             state_dict['__qualname__'] = obj.__qualname__
-        if '__name__' not in globs or obj.__module__ != globs['__name__']:
+        if '__name__' not in globs or obj.__module__ != globs['__name__'] or \
+                _postproc is None: # the globals may be filled after the function is created
             state_dict['__module__'] = obj.__module__
 
         state = obj.__dict__
-- 
2.43.0


From 6505c054741ca9010c5073c0644981a593297e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 22/54] fix: a class with an inherited __orig_bases__ keeps its
 own bases

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index cb4ddb7..8e6f633 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1878,7 +1878,7 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__'):
+            if '__orig_bases__' not in obj.__dict__: # may be inherited
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From e0d73b3faf6382ed03274651b3587bf1a4aeab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 23/54] fix: a namedtuple class with renamed fields can be
 loaded

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 8e6f633..14b7833 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -998,7 +998,7 @@ def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     if getattr(class_, '_fields', None) == tuple(fieldnames):
         return class_
     import collections
-    t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
+    t = collections.namedtuple(name, fieldnames, rename=True, defaults=defaults, module=modulename)
     return t
 
 def _create_capsule(pointer, name, context, destructor):
-- 
2.43.0


From 9be14dd1749772b5d26d24e7df71f21f04e9ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 24/54] fix: refimported sessions with objects whose __module__
 is not a string

---
 dill/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index 56a8ea9..82fe1e5 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -124,7 +124,7 @@ def _lookup_module(modmap, name, obj, main_module):
         if modobj is obj and sys.modules[modname] is not main_module:
             return modname, name
     __module__ = getattr(obj, '__module__', None)
-    if isinstance(obj, IMPORTED_AS_TYPES) or (__module__ is not None
+    if isinstance(obj, IMPORTED_AS_TYPES) or (isinstance(__module__, str)
             and any(regex.fullmatch(__module__) for regex in IMPORTED_AS_MODULES)):
         for modobj, objname, modname in modmap.by_id[id(obj)]:
             if sys.modules[modname] is not main_module:
-- 
2.43.0


From 8a6f9eb4c3ff2659d89af8198aa2fdb448c2bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 25/54] fix: a failed lookup while restoring imported names is
 reported

---
 dill/session.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 82fe1e5..29ff5a8 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -174,15 +174,13 @@ def _stash_modules(main_module):
         return main_module
 
 def _restore_modules(unpickler, main_module):
-    try:
-        for modname, name in main_module.__dict__.pop('__dill_imported'):
-            main_module.__dict__[name] = unpickler.find_class(modname, name)
-        for modname, objname, name in main_module.__dict__.pop('__dill_imported_as'):
-            main_module.__dict__[name] = unpickler.find_class(modname, objname)
-        for modname, name in main_module.__dict__.pop('__dill_imported_top_level'):
-            main_module.__dict__[name] = __import__(modname)
-    except KeyError:
-        pass
+    # older sessions may lack some of these
+    for modname, name in main_module.__dict__.pop('__dill_imported', ()):
+        main_module.__dict__[name] = unpickler.find_class(modname, name)
+    for modname, objname, name in main_module.__dict__.pop('__dill_imported_as', ()):
+        main_module.__dict__[name] = unpickler.find_class(modname, objname)
+    for modname, name in main_module.__dict__.pop('__dill_imported_top_level', ()):
+        main_module.__dict__[name] = __import__(modname)
 
 #NOTE: 06/03/15 renamed main_module to main
 def dump_module(
-- 
2.43.0


From 9fa101ab54d4069e8e604801631f36746aa80a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 26/54] fix: the standard streams can be pickled with
 FILE_FMODE

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 14b7833..3a06a96 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1399,7 +1399,8 @@ def _save_file(pickler, obj, open_):
             position = -1
         else:
             position = obj.tell()
-    if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
+    if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE \
+       and obj not in (sys.__stdout__, sys.__stderr__, sys.__stdin__):
         f = open_(obj.name, "r")
         fdata = f.read()
         f.close()
-- 
2.43.0


From d29a3771f5d64e5b8051c2c4e255f2668155c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 27/54] fix: a handle with mode x can be loaded with FILE_FMODE

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 3a06a96..0b015c4 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -863,6 +863,7 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         try:
             #FIXME: missing: *buffering*, encoding, softspace
             if fmode == FILE_FMODE:
+                mode = mode.replace("x", "w") # treat x mode as w mode
                 f = open(name, mode if "w" in mode else "w")
                 f.write(fdata)
                 if "w" not in mode:
-- 
2.43.0


From 44f018b4af1db62b7f64e8dc66468789a7d3132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:14 +0000
Subject: [PATCH 28/54] fix: a chain from None ends with None

---
 dill/pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index 17b96db..4d3ee14 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -97,7 +97,7 @@ def find_chain(obj, predicate, edge_func, max_depth=20, extra_ignore=()):
         target = queue.pop(0)
         if predicate(target):
             chain = [target]
-            while parent[id(target)] is not None:
+            while target is not obj:
                 target = parent[id(target)]
                 chain.append(target)
             return chain
-- 
2.43.0


From fbfd78b1a85967c2ec3d2af5b6b135ac79ca2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 29/54] fix: globalvars looks at each of many mutually
 recursive functions once

---
 dill/detect.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index c97fb8d..5fd56a7 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -173,9 +173,11 @@ def globalvars(func, recurse=True, builtin=False, _path=()):
     return a dict of {name:object}"""
     if ismethod(func): func = func.__func__
     if isfunction(func):
-        if func in _path: # mutual recursion: func is already being searched
+        if any(func in found for _, found in _path): # was already found
             return {}
-        _path += (func,)
+        if not _path or _path[-1][0] is not func.__globals__:
+            _path += ((func.__globals__, set()),)
+        _path[-1][1].add(func)
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
         orig_func, func = func, set()
@@ -203,6 +205,9 @@ def globalvars(func, recurse=True, builtin=False, _path=()):
                     continue  #XXX: globalvars(func, False)?
                 func.update(globalvars(nested_func, True, builtin, _path))
     elif iscode(func):
+        if any(func in found for _, found in _path):
+            return {}
+        _path += ((None, {func}),)
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
         if not recurse:
@@ -216,7 +221,7 @@ def globalvars(func, recurse=True, builtin=False, _path=()):
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
                 nested_func = globs.get(key)
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(globalvars(nested_func, True, builtin, _path))
     else:
         return {}
     #NOTE: if name not in __globals__, then we skip it...
-- 
2.43.0


From 77becc9c67a39d91e103938d99bdc72a06cee506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 30/54] fix: the traced size of an object carries the unit it
 was scaled to

---
 dill/logger.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index 7a21c09..e8a0f40 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -47,7 +47,6 @@ import codecs
 import contextlib
 import locale
 import logging
-import math
 import os
 from functools import partial
 from typing import TextIO, Union
@@ -202,9 +201,9 @@ class TraceFormatter(logging.Formatter):
             fields['prefix'] = prefix + " "
         if hasattr(record, 'size') and record.size is not None and record.size >= 1:
             # Show object size in human-readable form.
-            power = int(math.log(record.size, 2)) // 10
+            power = min((record.size.bit_length() - 1) // 10, len("KMGTP"))
             size = record.size >> power*10
-            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power] + "i" if power else "")
+            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power-1] + "i" if power else "")
         vars(record).update(fields)
         return super().format(record)
 
-- 
2.43.0


From 2907a46cd72205ecd5fd23e0ed561203f42c0599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 31/54] fix: leaving a trace context restores the level the
 logger had itself, not the inherited one

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index e8a0f40..668ae97 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -273,7 +273,7 @@ class TraceManager(contextlib.AbstractContextManager):
             self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
-        self.old_level = adapter.getEffectiveLevel()
+        self.old_level = logger.level
         adapter.setLevel(logging.INFO)
         return adapter.info
     def __exit__(self, *exc_info):
-- 
2.43.0


From 0922fad211c332c189f8da7208378174f5b52889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 32/54] fix: tracing never makes a dump fail because of what
 the stream's tell does

---
 dill/logger.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index 668ae97..7949b72 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -150,14 +150,14 @@ class TraceAdapter(logging.LoggerAdapter):
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
                 size += len(frame)
-        except (AttributeError, TypeError, OSError):
+        except Exception:
             pass
-        if size is not None:
-            if not pushed_obj:
-                pickler._size_stack.append(size)
-            else:
-                size -= pickler._size_stack.pop()
-                extra['size'] = size
+        if not pushed_obj:
+            pickler._size_stack.append(size)
+        else:
+            start = pickler._size_stack.pop()
+            if isinstance(size, int) and isinstance(start, int):
+                extra['size'] = size - start
         if pushed_obj:
             pickler._trace_depth -= 1
         extra['depth'] = pickler._trace_depth
-- 
2.43.0


From d9c63336e295e3094ce5f366c14b564788c12f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 33/54] fix: tracing never makes a dump fail because an object
 cannot be shown

---
 dill/logger.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index 7949b72..5c425dd 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -123,6 +123,12 @@ class TraceAdapter(logging.LoggerAdapter):
     def process(self, msg, kwargs):
         # A no-op override, as we don't have self.extra.
         return msg, kwargs
+    def _trace_info(self, msg, *args, **kwargs):
+        # Unlike other errors, logging lets this one through.
+        try:
+            self.info(msg, *args, **kwargs)
+        except RecursionError:
+            pass
     def trace_setup(self, pickler):
         # Called by Pickler.dump().
         if not dill._dill.is_dill(pickler, child=False):
@@ -134,7 +140,7 @@ class TraceAdapter(logging.LoggerAdapter):
             pickler._trace_depth = None
     def trace(self, pickler, msg, *args, **kwargs):
         if not hasattr(pickler, '_trace_depth'):
-            logger.info(msg, *args, **kwargs)
+            self._trace_info(msg, *args, **kwargs)
             return
         if pickler._trace_depth is None:
             return
@@ -162,7 +168,7 @@ class TraceAdapter(logging.LoggerAdapter):
             pickler._trace_depth -= 1
         extra['depth'] = pickler._trace_depth
         kwargs['extra'] = extra
-        self.info(msg, *args, **kwargs)
+        self._trace_info(msg, *args, **kwargs)
         if not pushed_obj:
             pickler._trace_depth += 1
 
-- 
2.43.0


From 129e959f7a5786d1e59e56cd70fc0b7029031471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 34/54] fix: baditems tells items apart by identity, not by
 equality

---
 dill/detect.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 5fd56a7..b0bb312 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -244,8 +244,11 @@ def baditems(obj, exact=False, safe=False): #XXX: obj=globals() ?
         return [j for j in (badobjects(obj,0,exact,safe),) if j is not None]
     obj = obj.values() if getattr(obj,'values',None) else obj
     _obj = [] # can't use a set, as items may be unhashable
-    [_obj.append(badobjects(i,0,exact,safe)) for i in obj if i not in _obj]
-    return [j for j in _obj if j is not None]
+    for i in obj:
+        if not any(i is j for j in _obj): # items may be equal or not comparable
+            i = badobjects(i,0,exact,safe)
+            if i is not None: _obj.append(i)
+    return _obj
 
 
 def badobjects(obj, depth=0, exact=False, safe=False):
-- 
2.43.0


From 71a5ecbaa4a7912ee96bd61d9f89e7b84fcfbf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 35/54] fix: baditems takes an attribute 'values' that is not a
 method for an ordinary attribute

---
 dill/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index b0bb312..b8f0539 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -242,7 +242,7 @@ def baditems(obj, exact=False, safe=False): #XXX: obj=globals() ?
     """get items in object that fail to pickle"""
     if not hasattr(obj,'__iter__'): # is not iterable
         return [j for j in (badobjects(obj,0,exact,safe),) if j is not None]
-    obj = obj.values() if getattr(obj,'values',None) else obj
+    obj = obj.values() if callable(getattr(obj,'values',None)) else obj
     _obj = [] # can't use a set, as items may be unhashable
     for i in obj:
         if not any(i is j for j in _obj): # items may be equal or not comparable
-- 
2.43.0


From c0b7892ca296cfccbbc27f41e2ebb60e2da28037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:24 +0000
Subject: [PATCH 36/54] fix: pickles gives a verdict on objects that can't be
 compared with their copy

---
 dill/_dill.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 0b015c4..24bea1b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2180,14 +2180,18 @@ def pickles(obj,exact=False,safe=False,**kwds):
         pik = copy(obj, **kwds)
         #FIXME: should check types match first, then check content if "exact"
         try:
-            #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
-            result = bool(pik.all() == obj.all())
-        except (AttributeError, TypeError):
-            with warnings.catch_warnings():
-                warnings.filterwarnings('ignore') #FIXME: be specific
-                result = pik == obj
-        if hasattr(result, 'toarray'): # for unusual types like sparse matrix
-            result = result.toarray().all()
+            try:
+                #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
+                result = bool(pik.all() == obj.all())
+            except (AttributeError, TypeError):
+                with warnings.catch_warnings():
+                    warnings.filterwarnings('ignore') #FIXME: be specific
+                    result = pik == obj
+            if hasattr(result, 'toarray'): # for unusual types like sparse matrix
+                result = result.toarray().all()
+            result = bool(result)
+        except Exception: # can't be compared, as arrays within a container or dead proxies
+            result = False
         if result: return True
         if not exact:
             result = type(pik) == type(obj)
-- 
2.43.0


From ef4094f33958afa033c4ab6385c0ffe62180525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:24 +0000
Subject: [PATCH 37/54] fix: errors reports an error exactly for the objects
 that pickles rejects

---
 dill/detect.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index b8f0539..59047ef 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -274,13 +274,10 @@ def errors(obj, depth=0, exact=False, safe=False):
     from dill import pickles, copy
     if not depth:
         try:
+            if pickles(obj,exact,safe): return None
             pik = copy(obj)
-            if exact:
-                assert pik == obj, \
-                    "Unpickling produces %s instead of %s" % (pik,obj)
-            assert type(pik) == type(obj), \
-                "Unpickling produces %s instead of %s" % (type(pik),type(obj))
-            return None
+            if not exact: pik,obj = type(pik),type(obj)
+            raise AssertionError("Unpickling produces %s instead of %s" % (pik,obj))
         except Exception:
             import sys
             return sys.exc_info()[1]
-- 
2.43.0


From 72d7c8dcea648884293f8e68433fc8650f1de223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 38/54] fix: sources are stored and loaded as UTF-8

They were stored as Latin-1, and loaded with the encoding of the locale (or
as UTF-8): no source with other characters than ASCII came back.
---
 dill/temp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..2d58547 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -42,7 +42,7 @@ def capture(stream='stdout'):
 
 def b(x): # deal with b'foo' versus 'foo'
     import codecs
-    return codecs.latin_1_encode(x)[0]
+    return codecs.utf_8_encode(x)[0]
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -60,6 +60,7 @@ def load_source(file, **kwds):
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8') # as stored
     source = open(fname, mode=mode, **kwds).read()
     if not alias:
         tag = source.strip().splitlines()[-1].split()
-- 
2.43.0


From 567ea88794a340e08798257cf9fe7e7583580152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 39/54] fix: load_source reads the name of a source opened in
 binary mode

The documented mode 'rb' always raised IOError without an alias.
---
 dill/temp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/temp.py b/dill/temp.py
index 2d58547..d90d6be 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -62,6 +62,7 @@ def load_source(file, **kwds):
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
     if 'b' not in mode: kwds.setdefault('encoding', 'utf-8') # as stored
     source = open(fname, mode=mode, **kwds).read()
+    if 'b' in mode: source = source.decode() # file to string
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
-- 
2.43.0


From 0adba530281bfb34995ac53c3a34f1de20173404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 40/54] fix: an empty source, or an empty name, is rejected
 with IOError

They raised IndexError, or a SyntaxError.
---
 dill/temp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index d90d6be..8c0f425 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -64,9 +64,9 @@ def load_source(file, **kwds):
     source = open(fname, mode=mode, **kwds).read()
     if 'b' in mode: source = source.decode() # file to string
     if not alias:
-        tag = source.strip().splitlines()[-1].split()
-        if tag[0] != '#NAME:':
-            stub = source.splitlines()[0]
+        tag = (source.strip().splitlines() or [''])[-1].split()
+        if len(tag) < 2 or tag[0] != '#NAME:':
+            stub = (source.splitlines() or [''])[0]
             raise IOError("unknown name for code: %s" % stub)
         alias = tag[-1]
     local = {}
@@ -213,9 +213,9 @@ def loadIO_source(buffer, **kwds):
     if source != buffer: source = source() # buffer.getvalue()
     source = source.decode() # buffer to string
     if not alias:
-        tag = source.strip().splitlines()[-1].split()
-        if tag[0] != '#NAME:':
-            stub = source.splitlines()[0]
+        tag = (source.strip().splitlines() or [''])[-1].split()
+        if len(tag) < 2 or tag[0] != '#NAME:':
+            stub = (source.splitlines() or [''])[0]
             raise IOError("unknown name for code: %s" % stub)
         alias = tag[-1]
     local = {}
-- 
2.43.0


From 71a8dc0f9c0eb6001cf1e5c8a702da0ee67166e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 41/54] fix: no name is recorded for an object that has none

A source stored without alias for an object without a name loaded as None,
and not with the IOError for a source of unknown name.
---
 dill/temp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 8c0f425..fe2f9d6 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -112,7 +112,7 @@ NOTE: Keep the return value for as long as you want your file to exist !
     kwds.pop('suffix', '') # this is *always* '.py'
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
     name = str(alias) or getname(object)
-    name = "\n#NAME: %s\n" % name
+    name = "\n#NAME: %s\n" % name if name else "\n"
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = tempfile.NamedTemporaryFile(suffix='.py', **kwds)
     file.write(b(''.join([importable(object, alias=alias),name])))
@@ -240,7 +240,7 @@ Optional kwds:
     from io import BytesIO as StringIO
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
     name = str(alias) or getname(object)
-    name = "\n#NAME: %s\n" % name
+    name = "\n#NAME: %s\n" % name if name else "\n"
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = StringIO()
     file.write(b(''.join([importable(object, alias=alias),name])))
-- 
2.43.0


From 0991119df4c4bb397ae158a9824f046ef6f06f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 42/54] fix: temp.load reads pickles opened with mode 'r'

The documented mode 'r' raised TypeError or UnicodeDecodeError.
---
 dill/temp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/temp.py b/dill/temp.py
index fe2f9d6..ecb0d23 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -131,6 +131,7 @@ def load(file, **kwds):
     """
     import dill as pickle
     mode = kwds.pop('mode', 'rb')
+    if 'b' not in mode: mode += 'b' # pickles are always bytes
     name = getattr(file, 'name', file) # name=file.name or name=file (if str)
     return pickle.load(open(name, mode=mode, **kwds))
 
-- 
2.43.0


From fa05b58dceb9aa1d92f35f62d36c383f2ec5b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 43/54] fix: alias=None stores a source under its own name

It was recorded under the name None, and loaded as None.
---
 dill/temp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index ecb0d23..b8a5b6a 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -111,7 +111,7 @@ NOTE: Keep the return value for as long as you want your file to exist !
     kwds.setdefault('delete', True)
     kwds.pop('suffix', '') # this is *always* '.py'
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
-    name = str(alias) or getname(object)
+    name = str(alias or '') or getname(object)
     name = "\n#NAME: %s\n" % name if name else "\n"
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = tempfile.NamedTemporaryFile(suffix='.py', **kwds)
@@ -240,7 +240,7 @@ Optional kwds:
     from .source import importable, getname
     from io import BytesIO as StringIO
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
-    name = str(alias) or getname(object)
+    name = str(alias or '') or getname(object)
     name = "\n#NAME: %s\n" % name if name else "\n"
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = StringIO()
-- 
2.43.0


From a93616a85c5b52d377d2af8a1d29f69b67f51bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 44/54] fix: outdent keeps the line endings of blank lines

---
 dill/source.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index b77d9fb..98291dc 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -480,6 +480,11 @@ def _isstring(object): #XXX: isstringlike better?
     return isinstance(object, (str, bytes))
 
 
+def _indentsize(line):
+    '''get the indentation of a line (a line ending is not indentation)'''
+    return indentsize(line.rstrip('\r\n'))
+
+
 def indent(code, spaces=4):
     '''indent a block of code with whitespace (default is 4 spaces)'''
     indent = indentsize(code)
@@ -493,7 +498,7 @@ def indent(code, spaces=4):
 ##  in_stq = in_dtq = False
     for i in range(len(lines)):
         #FIXME: works... but shouldn't indent 2nd+ lines of multiline doc
-        _indent = indentsize(lines[i])
+        _indent = _indentsize(lines[i])
         if indent > _indent: continue
         lines[i] = spaces+lines[i]
 ##      #FIXME: may fail when stq and dtq in same line (depends on ordering)
@@ -513,11 +518,11 @@ def indent(code, spaces=4):
 
 def _outdent(lines, spaces=None, all=True):
     '''outdent lines of code, accounting for docs and line continuations'''
-    indent = indentsize(lines[0])
+    indent = _indentsize(lines[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
     for i in range(len(lines) if all else 1):
         #FIXME: works... but shouldn't outdent 2nd+ lines of multiline doc
-        _indent = indentsize(lines[i])
+        _indent = _indentsize(lines[i])
         if spaces > _indent: _spaces = _indent
         else: _spaces = spaces
         lines[i] = lines[i][_spaces:]
-- 
2.43.0


From 69b74a3bdee17a536e4ff3b58345f8e45eb0b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 45/54] fix: a blank first line is not part of the indentation
 of a block of code

---
 dill/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 98291dc..8b22064 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -487,7 +487,7 @@ def _indentsize(line):
 
 def indent(code, spaces=4):
     '''indent a block of code with whitespace (default is 4 spaces)'''
-    indent = indentsize(code)
+    indent = _indentsize(code.split('\n', 1)[0])
     from numbers import Integral
     if isinstance(spaces, Integral): spaces = ' '*spaces
     # if '\t' is provided, will indent with a tab
@@ -530,7 +530,7 @@ def _outdent(lines, spaces=None, all=True):
 
 def outdent(code, spaces=None, all=True):
     '''outdent a block of code (default is to strip all leading whitespace)'''
-    indent = indentsize(code)
+    indent = _indentsize(code.split('\n', 1)[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
     #XXX: will this delete '\n' in some cases?
     if not all: return code[spaces:]
-- 
2.43.0


From edb4283337d10354da1969cddd69771e90bd3e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 46/54] fix: outdent removes columns of indentation, where a
 tab is up to eight

---
 dill/source.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 8b22064..b702cde 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -516,6 +516,12 @@ def indent(code, spaces=4):
     return '\n'.join(lines)
 
 
+def _expandindent(line):
+    '''expand any tabs in the indentation of a line'''
+    size = len(line) - len(line.lstrip())
+    return line[:size].expandtabs() + line[size:]
+
+
 def _outdent(lines, spaces=None, all=True):
     '''outdent lines of code, accounting for docs and line continuations'''
     indent = _indentsize(lines[0])
@@ -525,15 +531,13 @@ def _outdent(lines, spaces=None, all=True):
         _indent = _indentsize(lines[i])
         if spaces > _indent: _spaces = _indent
         else: _spaces = spaces
-        lines[i] = lines[i][_spaces:]
+        if _spaces: lines[i] = _expandindent(lines[i])[_spaces:]
     return lines
 
 def outdent(code, spaces=None, all=True):
     '''outdent a block of code (default is to strip all leading whitespace)'''
     indent = _indentsize(code.split('\n', 1)[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
-    #XXX: will this delete '\n' in some cases?
-    if not all: return code[spaces:]
     return '\n'.join(_outdent(code.split('\n'), spaces=spaces, all=all))
 
 
-- 
2.43.0


From d27f4236d2ea4f67d54d90d0daba7d79d3968df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 47/54] fix: has_changed returns a boolean

---
 dill/__diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index 6fa8dd5..b7248eb 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -200,7 +200,7 @@ def whats_changed(obj, seen=None, simple=False, first=True):
                     break
     seen[obj_id] = changed, seq_diff
     if simple:
-        return changed or seq_diff
+        return bool(changed or seq_diff)
     return changed, seq_diff
 
 
-- 
2.43.0


From deb33c0214a0e05a8093c4b4dffd1e8c6b25f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 48/54] fix: changes of the items of a frozenset are noticed

---
 dill/__diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index b7248eb..27eb5d8 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -44,7 +44,7 @@ def get_attrs(obj):
     return getattr(obj, '__dict__', None)
 
 
-def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
+def get_seq(obj, cache={str: False, frozenset: True, list: True, set: True,
                         dict: True, tuple: True, type: False,
                         types.ModuleType: False, types.FunctionType: False,
                         types.BuiltinFunctionType: False}):
-- 
2.43.0


From 2125cd8b9c9f6dce1188acd1aa204119e9a3662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 49/54] fix: a set with the same items as before has not
 changed

---
 dill/__diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/__diff.py b/dill/__diff.py
index 27eb5d8..e11bc51 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -194,6 +194,8 @@ def whats_changed(obj, seen=None, simple=False, first=True):
                     seq_diff = True
                     break
         else:
+            if isinstance(items, (set, frozenset)):  # order is not kept
+                items, obj_seq = sorted(items, key=id_), sorted(obj_seq)
             for i, j in zip(items, obj_seq):  # list type obj
                 if id_(i) != j or chngd(i, seen, True, False):
                     seq_diff = True
-- 
2.43.0


From d3bd5da25c23b32e5bc21e6a57e9affcec08bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 50/54] fix: enumerations with members named 'items' or 'copy'
 can be memorised

---
 dill/__diff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index e11bc51..48817cf 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -58,7 +58,7 @@ def get_seq(obj, cache={str: False, frozenset: True, list: True, set: True,
     hsattr = hasattr
     if o_type in cache:
         if cache[o_type]:
-            if hsattr(obj, "copy"):
+            if hsattr(o_type, "copy"):
                 return obj.copy()
             return obj
     elif HAS_NUMPY and o_type in (numpy.ndarray, numpy.ma.core.MaskedConstant):
@@ -70,7 +70,7 @@ def get_seq(obj, cache={str: False, frozenset: True, list: True, set: True,
        and hsattr(obj, "__len__") and hsattr(o_type, "__contains__") \
        and hsattr(o_type, "__iter__") and hsattr(o_type, "__len__"):
         cache[o_type] = True
-        if hsattr(obj, "copy"):
+        if hsattr(o_type, "copy"):
             return obj.copy()
         return obj
     else:
@@ -97,7 +97,7 @@ def memorise(obj, force=False):
     s = get_seq(obj)
     if s is None:
         seq_id = None
-    elif hasattr(s, "items"):
+    elif hasattr(type(s), "items"):
         seq_id = dict((id_(key),id_(value)) for key, value in s.items())
     elif not hasattr(s, "__len__"): #XXX: avoid TypeError from unexpected case
         seq_id = None
@@ -111,7 +111,7 @@ def memorise(obj, force=False):
         [mem(value) for key, value in g.items()]
 
     if s is not None:
-        if hasattr(s, "items"):
+        if hasattr(type(s), "items"):
             [(mem(key), mem(item))
              for key, item in s.items()]
         else:
@@ -185,7 +185,7 @@ def whats_changed(obj, seen=None, simple=False, first=True):
         obj_seq = memo[obj_id][1]
         if (len(items) != len(obj_seq)):
             seq_diff = True
-        elif hasattr(obj, "items"):  # dict type obj
+        elif hasattr(type(obj), "items"):  # dict type obj
             obj_get = obj_seq.get
             for key, item in items.items():
                 if id_(item) != obj_get(id_(key)) \
-- 
2.43.0


From a9e62808edd3dcfcabaabfab9db9ea6b2fe4e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 51/54] fix: the descriptor of a slot is looked up in its
 class, not by the name of the class

---
 dill/_dill.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 24bea1b..7e8ed22 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1033,23 +1033,23 @@ def _create_capsule(pointer, name, context, destructor):
         return capsule
 
 def _getattr(objclass, name, repr_str):
-    # hack to grab the reference directly
-    try: #XXX: works only for __builtin__ ?
-        attr = repr_str.split("'")[3]
-        return eval(attr+'.__dict__["'+name+'"]')
-    except Exception:
-        try:
-            attr = objclass.__dict__
-            if type(attr) is DictProxyType:
-                if sys.hexversion > 0x30f00a0 and name in ('__weakref__','__dict__'):
-                    attr = _dictproxy_helper.__dict__[name]
-                else:
-                    attr = attr[name]
+    try:
+        attr = objclass.__dict__
+        if type(attr) is DictProxyType:
+            if name not in attr and sys.hexversion > 0x30f00a0 and name in ('__weakref__','__dict__'):
+                attr = _dictproxy_helper.__dict__[name]
             else:
-                attr = getattr(objclass,name)
-        except (AttributeError, KeyError):
+                attr = attr[name]
+        else:
+            attr = getattr(objclass,name)
+    except (AttributeError, KeyError):
+        # hack to grab the reference directly
+        try: #XXX: works only for __builtin__ ?
+            attr = repr_str.split("'")[3]
+            attr = eval(attr+'.__dict__["'+name+'"]')
+        except Exception:
             attr = getattr(objclass,name)
-        return attr
+    return attr
 
 def _get_attr(self, name):
     # stop recursive pickling
-- 
2.43.0


From 1b4605ae30da3a24bdf222c84504e331a348c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 52/54] fix: arrays of a subclass of numpy.ndarray can refer to
 themselves

---
 dill/_dill.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7e8ed22..2bf83e5 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -412,7 +412,8 @@ class Pickler(StockPickler):
                     logger.trace(pickler, "Nu: (%s, %s)", obj.shape, obj.dtype)
                     npdict = getattr(obj, '__dict__', None)
                     f, args, state = obj.__reduce__()
-                    pickler.save_reduce(_create_array, (f,args,state,npdict), obj=obj)
+                    # set afterwards, as the state can refer to the array
+                    pickler.save_reduce(f, args, (state, npdict), state_setter=_set_array_state, obj=obj)
                     logger.trace(pickler, "# Nu")
                     return
         # end numpy hack
@@ -988,6 +989,12 @@ def _create_array(f, args, state, npdict=None):
         array.__dict__.update(npdict)
     return array
 
+def _set_array_state(array, state):
+    state, npdict = state
+    array.__setstate__(state)
+    if npdict is not None: # we also have saved state in __dict__
+        array.__dict__.update(npdict)
+
 def _create_dtypemeta(scalar_type):
     if NumpyDType is True: __hook__() # a bit hacky I think
     if scalar_type is None:
-- 
2.43.0


From 5cf17464516da2dd1d522c7cea569ed1f508a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:13 +0000
Subject: [PATCH 53/54] fix: functions of a module created at run time share
 its namespace when its session is loaded

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2bf83e5..92cdffe 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1983,7 +1983,7 @@ def save_function(pickler, obj):
         logger.trace(pickler, "F1: %s", obj)
         _recurse = getattr(pickler, '_recurse', None)
         _postproc = getattr(pickler, '_postproc', None)
-        _main_modified = getattr(pickler, '_main_modified', None)
+        _session = getattr(pickler, '_session', False)
         _original_main = getattr(pickler, '_original_main', __builtin__)#'None'
         postproc_list = []
         if _recurse:
@@ -2001,7 +2001,7 @@ def save_function(pickler, obj):
 
             # If the globals is the __dict__ from the module being saved as a
             # session, substitute it by the dictionary being actually saved.
-            if _main_modified and globs_copy is _original_main.__dict__:
+            if _session and globs_copy is _original_main.__dict__:
                 globs_copy = getattr(pickler, '_main', _original_main).__dict__
                 globs = globs_copy
             # If the globals is a module __dict__, do not save it in the pickle.
-- 
2.43.0


From 3186fd32c5dc02c0ecf643f87b22f8d52ae5d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:19 +0000
Subject: [PATCH 54/54] fix: a module saved with refimported=True can refer to
 itself and to its namespace

---
 dill/_dill.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 92cdffe..98ad3ef 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1254,7 +1254,9 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
+    # In a session, the module being saved may be represented by a copy of it.
+    if is_dill(pickler, child=False) and (obj is pickler._main.__dict__ or pickler._session
+            and obj is getattr(getattr(pickler, '_original_main', None), '__dict__', None)) and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
@@ -1742,6 +1744,12 @@ def save_module(pickler, obj):
         logger.trace(pickler, "M1: %s", obj)
         pickler.save_reduce(_import_module, (obj.__name__,), obj=obj)
         logger.trace(pickler, "# M1")
+    elif is_dill(pickler, child=True) and pickler._session and obj is not pickler._main \
+            and obj is getattr(pickler, '_original_main', None):
+        # The module being saved is represented by a copy of it, already saved.
+        logger.trace(pickler, "M1: %s", obj)
+        pickler.save(pickler._main)
+        logger.trace(pickler, "# M1")
     else:
         builtin_mod = _is_builtin_module(obj)
         is_session_main = is_dill(pickler, child=True) and obj is pickler._main
-- 
2.43.0

