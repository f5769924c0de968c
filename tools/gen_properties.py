#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the statements are reviewable as prose)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=list(over), text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))
D, S, SRC, DET, T, LOG, PT, SH, DF, INI = ('dill/_dill.py', 'dill/session.py', 'dill/source.py', 'dill/detect.py',
    'dill/temp.py', 'dill/logger.py', 'dill/pointers.py', 'dill/_shims.py', 'dill/__diff.py', 'dill/__init__.py')

prop('C01', 'Code objects survive pickling field by field, from every stored layout',
 """For every code object, unpickling its pickle yields a code object in which every constructor field (argument
 counts, locals, stack size, flags, bytecode, constants, names, variable names, file name, name, qualified name,
 first line, line table, exception table, free and cell variables) equals the original's. A field tuple stored in
 any recorded layout (3.7; 3.8/3.9; 3.10; 3.11 and later; 3.11 alpha; PyPy 3.11; each with or without a leading
 line-number table) rebuilds a code object in which each recorded field that this interpreter has sits in the field
 of the same name (the 16-field layouts' line table counts as this interpreter's line table), text being accepted
 for byte fields. A non-empty tuple of any other length is rejected with UnpicklingError.""".replace("\n", " "),
 ['inputs', 'configurations'], "all code objects (all values of all 18 fields), all stored layouts, with and without the leading table",
 "The suite round-trips a few functions on one interpreter; it never builds the other five layouts and cannot range over field values.",
 [D], [('save_code', 'dill/_dill.py: save_code'), ('_create_code', 'dill/_dill.py: _create_code'), ('match', 'dill/_dill.py: class match')],
 [('CODE_PARAMS', 'ordered constructor fields of this interpreter', 'dill/_dill.py')], ['dill.dumps/dill.loads of types.CodeType', 'dill._dill._create_code(*fields)'])

prop('C02', 'A function pickled by value comes back with the same definition',
 """A Python function pickled by value is restored with the same code, name, qualified name, module, positional
 defaults, keyword-only defaults, annotations, attribute dictionary, closure variable count and (when it has one) docstring. Pickling
 leaves the original function unchanged. Two references to one function inside a pickle load as one function.""",
 ['inputs'], "all functions not importable by name, for every presence/absence combination of docstring, defaults, keyword defaults, annotations, attributes, closure, and a __module__ or __qualname__ different from the defining one",
 "Tests check a handful of functions by calling them; most metadata combinations (module differing from globals' __name__, renamed functions, keyword-only defaults with attributes) are never exercised.",
 [D], [('save_function', 'dill/_dill.py'), ('_create_function', 'dill/_dill.py'), ('_save_with_postproc', 'dill/_dill.py')],
 [], ['dill.loads(dill.dumps(f))'])

prop('C03', 'Stored by reference only if the reference resolves to that same object',
 """A function or class is stored by reference only if importing its recorded module and following its recorded
 qualified name yields that identical object at dump time; a function, or (unless byref is set) an ordinary class, for which this fails (local,
 shadowed, redefined, deleted, module not importable, or defined in __main__ or in the session's main module) is
 stored by value. Following a dotted name never passes through a '<locals>' component, and a lookup that fails is
 reported as 'not locatable' rather than raising.""",
 ['inputs', 'programs'], "all functions and classes, all module/qualname values including ones that resolve to a different object, all states of sys.modules",
 "Tests use objects that are either cleanly importable or cleanly local; shadowing, redefinition, nested qualified names and modules missing from sys.modules form an unbounded space.",
 [D], [('_locate_function', 'dill/_dill.py'), ('_getattribute', 'dill/_dill.py'), ('_import_module', 'dill/_dill.py'), ('save_function', 'dill/_dill.py'), ('save_classobj/save_type', 'dill/_dill.py')],
 [], ['dill.dumps; pickletools opcodes', 'dill._dill._locate_function'])

prop('C04', 'Globals of a restored function are the documented ones',
 """By default a function pickled by value gets its whole defining globals: by reference to the module's dictionary if
 that dictionary is the importable module's own (or, in a session, that of the module being saved), otherwise as a new dictionary holding every entry of the original
 globals at dump time and nothing else besides __name__ and __builtins__. With recurse=True it gets a dictionary with exactly the global
 names (and builtins) reachable from the function, each bound to its value, plus __name__. In every case
 the restored function's globals contain __builtins__, so it can run anywhere, and the originals are not modified.""",
 ['inputs', 'configurations'], "all functions, all contents of the globals dictionary, both recurse settings, any importability of the function's module",
 "Tests compare a few globals; the space of globals contents, module identities and recursion through closures is not enumerable by examples.",
 [D, DET], [('save_function', 'dill/_dill.py'), ('_create_function', 'dill/_dill.py'), ('_setitems', 'dill/_dill.py'), ('globalvars', 'dill/detect.py')],
 [], ['dill.loads(dill.dumps(f)).__globals__'])

prop('C05', 'Closure cells keep their contents, emptiness and sharing',
 """A closure cell is restored holding (a copy of) its contents, an empty cell is restored empty (reading it raises
 ValueError), and a cell whose contents refer back to an object still being pickled is created first and filled with
 that very object before loading finishes. Cells shared by several closures stay shared, and the deferred fill
 of a cell happens exactly once.""",
 ['inputs', 'histories'], "all cells: filled with any value including None and falsy values, empty, self-referential; any stack of enclosing objects being pickled",
 "Tests have a few closures; they never vary the pending-object stack, and falsy or sentinel contents are not covered.",
 [D, SH], [('save_cell', 'dill/_dill.py'), ('_create_cell', 'dill/_dill.py'), ('_shims._setattr/_delattr', 'dill/_shims.py')],
 [('Pickler._postproc', 'objects being pickled and the actions deferred until each is complete', 'dill/_dill.py')], ['dill.loads(dill.dumps(closure))'])

prop('C06', 'Classes pickled by value come back as equivalent classes',
 """A class that is pickled by value is restored with the same metaclass, name, qualified name, bases and namespace
 (everything in its own namespace except the interpreter-made __dict__, __weakref__ and slot descriptors), with the same slots declaration, and an
 abstract class keeps its registered virtual subclasses. A namedtuple class keeps its field names, defaults, name,
 qualified name and module. Pickling never alters the original class.""",
 ['inputs', 'programs'], "all classes stored by value: any namespace contents, slots forms (string, tuple, absent), ABC registries, single or multiple bases, namedtuples with any defaults",
 "Tests round-trip about a dozen classes; inherited attributes shadowed in subclasses, string slots, registries and partial defaults are combinations no sample settles.",
 [D], [('save_type', 'dill/_dill.py'), ('_get_typedict_type', 'dill/_dill.py'), ('_get_typedict_abc', 'dill/_dill.py'), ('_create_type/_create_namedtuple', 'dill/_dill.py')],
 [], ['dill.loads(dill.dumps(cls))'])

prop('C07', 'Descriptor, method and constant values reload equal',
 """Properties, static and class methods, bound methods, super objects, slices, ranges, Ellipsis, NotImplemented,
 lru_cache wrappers and generic aliases are restored with equal defining parts (getter, setter, deleter and
 docstring; wrapped function; function and self; class and self; start, stop and step; cache size and typed flag;
 origin and arguments). Read-only dictionary proxies and dictionary views are restored as live views over a copy of the
 underlying mapping, of the same kind (keys, values or items). Two references to one such object load as one object.""",
 ['inputs'], "all such objects with arbitrary parts, including None parts, negative steps, unhashable view contents, unusual cache parameters",
 "Tests build one instance of each kind; part order, defaults elision and liveness over arbitrary contents are universally quantified.",
 [D], [('save_property', 'dill/_dill.py'), ('save_classmethod', 'dill/_dill.py'), ('save_slice/save_singleton', 'dill/_dill.py'), ('save_lru_cache', 'dill/_dill.py'), ('save_dict_view/save_dictproxy', 'dill/_dill.py'), ('save_generic_alias', 'dill/_dill.py'), ('save_super/save_instancemethod0', 'dill/_dill.py')],
 [], ['dill.loads(dill.dumps(x))'])

prop('C08', 'Locks and weak references keep their state',
 """A lock or reentrant lock is restored in the same locked state and, for a reentrant lock, with the same
 recursion count and owner (one owned by a thread other than the loading one is refused); an unlocked one can be acquired at once. Pickling never acquires or releases the original. A weak reference or proxy to a live object is restored
 pointing at the restored object when something else in the pickle keeps it alive, and one to a dead object is
 restored dead; a callable proxy stays callable.""",
 ['inputs', 'histories'], "all lock states (locked or not, any recursion count and owner), live and dead references, callable and plain proxies",
 "Tests check that copies pickle at all; no test acquires a restored RLock or varies owner and count.",
 [D, PT], [('save_lock/_create_lock', 'dill/_dill.py'), ('save_rlock/_create_rlock', 'dill/_dill.py'), ('save_weakref/_create_weakref', 'dill/_dill.py'), ('save_weakproxy/_create_weakproxy', 'dill/_dill.py')],
 [], ['dill.copy(lock)', 'dill.copy([obj, weakref])'])

prop('C09', 'File handles reload according to the file mode',
 """Loading a pickled file handle reopens the same name (standard streams map to the process's own streams) and gives back a handle
 that is closed if and only if the original was. With HANDLE_FMODE the file is opened in its original mode at its natural position; with
 CONTENTS_FMODE an existing file opened for writing is not truncated and the position is the smaller of the saved
 position and the file's size; with FILE_FMODE a text handle's file is recreated with the contents it had at dump time and the saved
 position. A file opened for reading that no longer exists yields an empty temporary file unless FILE_FMODE is used, under strict I/O
 a missing file raises FileNotFoundError and a too-short one ValueError before anything is opened, and failure to open is reported as
 UnpicklingError.""".replace("\n", " "),
 ['inputs', 'configurations', 'fault_sequences'], "all modes, positions, file-mode settings, strictness settings, existence and size of the file at load time, open failures",
 "test_file covers selected combinations with one small file; positions past the end, mode letters x/a/+, strict I/O and open failures are mostly unvisited.",
 [D], [('_save_file', 'dill/_dill.py'), ('_create_filehandle', 'dill/_dill.py'), ('save_file', 'dill/_dill.py')],
 [], ['dill.dumps(file, fmode=...)', 'dill._dill._create_filehandle(...)'])

prop('C10', 'Explicit options win; omitted options take the current global setting',
 """For dump, dumps, Pickler, load, loads, Unpickler and copy, each of protocol, byref, fmode, recurse and ignore is
 exactly the caller's value whenever one that is not None is given - False and 0 included - and otherwise the value in
 dill.settings at the time of the call. Remaining keyword arguments reach the underlying pickler or unpickler
 unchanged, neither the caller's arguments nor dill.settings is modified, and dumps returns exactly the bytes dump
 writes.""",
 ['inputs', 'configurations'], "all values of all options (including False, 0, None and absent) against all contents of the settings dictionary, for each entry point",
 "Tests flip a couple of options from their defaults; the cross product of option values, entry points and settings is not sampled, and forwarding of falsy values is the classic miss.",
 [D, 'dill/settings.py'], [('dump/dumps/load/loads/copy', 'dill/_dill.py'), ('Pickler.__init__/Unpickler.__init__', 'dill/_dill.py')],
 [('settings', 'global defaults', 'dill/settings.py')], ['attributes of the Pickler during dump', 'keyword arguments received by pickle'])

prop('C11', 'Loading resolves names as stored and re-binds only __main__ instances',
 """The unpickler resolves every (module, name) pair as pickle does, except the documented special cases: the session's main
 dictionary, NoneType under the old builtin module name, and the former module path dill.dill. After loading, only an object whose class's
 module is the main module's name is re-pointed to the class of that name in the main module, only if ignore is false, and never if there is no such usable class;
 every other object is returned exactly as unpickled.""",
 ['inputs', 'configurations'], "all (module, name) pairs, all loaded objects and classes, both ignore values, any contents of the main module",
 "Tests load a few __main__ instances; they cannot quantify over names or over classes missing or incompatible in __main__.",
 [D], [('Unpickler.find_class', 'dill/_dill.py'), ('Unpickler.load', 'dill/_dill.py')], [], ['dill.loads', 'Unpickler.find_class'])

prop('C12', 'The dispatch tables change only as register, pickle and extend say',
 """Registering a type binds exactly that type to exactly that function in dill's table and leaves every other entry
 alone, and the register decorator returns the function unchanged. extend(True) copies every dill entry into pickle's table; extend(False) removes
 from pickle's table every function defined by dill's core module, restores the original pickle function for each such type that had one, and leaves all other entries alone. A lookup in dill's table for an unregistered
 metaclass yields the class-saving function, and for any other unregistered type yields the default.""",
 ['inputs', 'histories'], "all tables contents, all types (registered or not, metaclasses or not), any interleaving of register/extend(True)/extend(False)",
 "Tests register one type and toggle once; arbitrary tables and user-registered functions mixed with dill's own are not sampled.",
 [D, INI], [('register/pickle', 'dill/_dill.py'), ('_extend/_revert_extension', 'dill/_dill.py'), ('MetaCatchingDict', 'dill/_dill.py'), ('extend', 'dill/__init__.py')],
 [('Pickler.dispatch', 'type -> save function', 'dill/_dill.py'), ('pickle._Pickler.dispatch', "pickle's own table", 'stdlib')], ['Pickler.dispatch', 'pickle._Pickler.dispatch'])

prop('C13', 'Modules are stored by name, and only user modules carry state',
 """A module that belongs to the interpreter or an installed package (no file, a file under any interpreter prefix, an extension module or site-packages)
 is stored as an import by name only; any other module, and the session's main module, is stored with a copy of its
 namespace minus __builtins__ and __loader__, under its own name if it is imported and under a '__runtime__.'
 name if not. A dictionary is stored as a reference to a module only if it is that module's own namespace, and then always if the module can be imported. Pickling neither changes nor imports any module.""",
 ['inputs', 'configurations'], "all modules: with, without and with None __file__, any file path and prefixes, imported or not, main or not; all dictionaries",
 "Tests pickle a few modules of one installation; path prefixes, missing __file__, dictionaries that merely carry a __name__ key are untested combinations.",
 [D], [('save_module', 'dill/_dill.py'), ('save_module_dict', 'dill/_dill.py'), ('_is_builtin_module/_is_imported_module', 'dill/_dill.py'), ('_import_module', 'dill/_dill.py')], [], ['dill.dumps(module)'])

prop('C14', 'Pending objects are tracked as a stack and deferred work runs exactly once',
 """While an object with deferred work is pickled it is registered as pending under its identity, and when its
 reduction has been written it is unregistered and every action deferred to it is written exactly once, in reverse order of
 registration, leaving the unpickling stack as if only the object had been written; a dictionary-fill action with no
 entries is skipped. An object that is already pending is not pickled again by value: it warns and falls back to a
 reference. With a non-dill pickler nothing is registered or deferred.""",
 ['inputs', 'histories'], "all reductions, all lists of deferred actions (including ones appended while the object is being written), all states of the pending stack",
 "Recursive-structure tests exercise few nestings; the protocol must hold for every nesting and every list of deferred actions.",
 [D], [('_save_with_postproc', 'dill/_dill.py'), ('Pickler._postproc', 'dill/_dill.py')],
 [('Pickler._postproc', 'identity -> actions to write when complete', 'dill/_dill.py')], ['opcodes written'])

prop('C15', 'Session files are opened safely and always closed',
 """Session files opened by name are never opened through a symbolic link, for reading or for writing; a newly created one is readable and writable by its owner only; an existing regular file is
 truncated in place. Using the default path always emits a SecurityWarning, and an explicit name or stream never does. On every exit, normal or by any exception, a file the call opened is closed and a stream the caller
 supplied is left open.""",
 ['inputs', 'fault_sequences'], "all file names and file-system states (absent, regular, symlink), any exception raised at any step of dumping or loading",
 "Tests dump and load successfully to a fresh path; symlinks appearing between check and open, failures inside pickling, and caller-owned streams are not exercised.",
 [S], [('_safe_open_for_writing/_safe_open_for_reading/_check_symlink', 'dill/session.py'), ('_warn_if_default_path', 'dill/session.py'), ('dump_module/load_module/load_module_asdict', 'dill/session.py')], [], ['os.open flags', 'file.closed after the call'])

prop('C16', 'refimported sessions: every name is saved once and restored to its import',
 """With refimported, each name of the module is either saved by value or recorded as an import, never both and never dropped; a name is recorded as an import only if some other imported module holds that identical object under the recorded
 name, singletons and built-in modules stay by value/reference as themselves, and references of the module to itself or its dictionary are redirected to the saved copy. The module being saved is not modified. Loading re-binds each recorded
 name to the object found at its recorded place and leaves no bookkeeping names behind.""",
 ['inputs', 'programs'], "all module contents, all states of sys.modules, all aliasing patterns between them",
 "The session test uses one namespace; the partition must hold for every namespace and every aliasing with imported modules.",
 [S], [('_stash_modules', 'dill/session.py'), ('_lookup_module/_module_map', 'dill/session.py'), ('_restore_modules', 'dill/session.py')], [], ['dill.dump_module(refimported=True)', 'dill.load_module'])

prop('C17', 'load_module refuses a mismatched target before touching it',
 """load_module loads only into a module whose name and kind (imported, or runtime module object) match the module
 stored in the file; on any mismatch it raises ValueError, and for a target that is not a module TypeError, before any object is unpickled. Whatever happens, the
 temporary '__runtime__' entry it adds to sys.modules is gone afterwards and no other entry is removed by it. It
 returns the module unless the target is __main__ or was passed in by the caller as a module, in which case it returns None.""",
 ['inputs', 'fault_sequences'], "all stored names and kinds, all targets (None, name, module object, other), failures at every step",
 "Tests try a few mismatches; the name/kind/target matrix with failing loads is not covered.",
 [S], [('load_module', 'dill/session.py'), ('_identify_module', 'dill/session.py'), ('_is_imported_module', 'dill/_dill.py')], [], ['dill.load_module'])

prop('C18', 'load_module_asdict leaves modules and sys.modules as they were',
 """load_module_asdict never alters the module it loads the state of: on every exit, normal or by exception, sys.modules maps
 the stored module name to exactly what it mapped before the call (or is without it, if it was absent; with update it may have been imported, as documented). The returned dictionary is a new one, holding the stored state
 (over the module's current state if update is set) plus __session__ naming the file.""",
 ['inputs', 'fault_sequences'], "all stored modules (top-level, submodule, runtime, __main__; imported or not beforehand), both update values, failure at any step",
 "Tests load one module successfully; exceptions, submodules and runtime modules are not tried.",
 [S], [('load_module_asdict', 'dill/session.py')], [('sys.modules', 'import table', 'stdlib')], ['dill.load_module_asdict', 'sys.modules'])

prop('C19', 'Identifying a session reads ahead without consuming the stream',
 """Identifying the module stored in a stream leaves the stream position unchanged, so that loading starts at the first
 byte, and yields the name recorded as the argument of the first module import in the pickle. A stream that cannot be peeked is accepted only if the caller
 named the module, and every other identification failure is an UnpicklingError. The peeking wrapper passes reads, position and close through unchanged.""",
 ['inputs', 'fault_sequences'], "all streams: with peek, with seek/tell, with neither, failing at any call; all opcode sequences",
 "Tests use files and BytesIO only; streams that fail to seek midway, raw streams and truncated pickles are not sampled.",
 [S], [('_PeekableReader', 'dill/session.py'), ('_make_peekable', 'dill/session.py'), ('_identify_module', 'dill/session.py')], [], ['stream.tell()', '_identify_module result'])

prop('C20', 'Variable detection reports exactly what a function refers to',
 """detect.code returns the code object underlying a function, method, frame, traceback or code object and None for anything else; freevars maps each non-empty closure variable to its current value and nothing
 else; varnames gives the local and cell variable names; nestedcode gives exactly the code objects nested (transitively when recursing) in the constants. globalvars returns only names
 present in the function's globals (or builtins, if asked), each bound to its current value, and includes every global name the function's own code or its nested functions' code loads,
 following, when recursing, the functions so named that share those globals. Detection neither runs the function nor
 alters it or its globals, and leaves sys.stdout as found.""",
 ['inputs', 'programs'], "all functions, methods and code objects, all closures (some cells empty), all globals dictionaries",
 "Tests inspect a handful of functions; name sets over arbitrary code and nesting are quantified over programs.",
 [DET], [('code/varnames/freevars/nestedcode', 'dill/detect.py'), ('nestedglobals/globalvars/referredglobals', 'dill/detect.py')], [], ['detect.globalvars(f)', 'detect.freevars(f)'])

prop('C21', 'The pickling diagnostics agree with pickling itself',
 """pickles(obj) is a bool, True only if a copy was made that compares equal to obj (arrays: whose all() compare equal; a comparison that raises counts as unequal) or, unless exact, has the same type (or one of the same repr), and
 False also when making the copy raises a TypeError, AssertionError, NotImplementedError or (un)pickling error (any Exception if safe), while every other exception of the copy comes through, and the warning filters are left exactly as they were.
 badobjects, badtypes and errors at depth 0 report None exactly for objects that pickle under the same settings and otherwise the object, its type, or an error, and at a greater depth exactly the attributes that fail
 (errors: also those that cannot be read), each with its report at one depth less. baditems lists exactly the items of an iterable (its values, if it has a method of that name) that fail, each once by identity.""",
 ['inputs', 'fault_sequences'], "all objects, any exception raised by copying or comparing, any prior warning filters, all depths, exact and safe",
 "Tests run on a few picklable objects; failing comparisons, pre-existing filters and exceptions of each class are not sampled.",
 [D, DET], [('pickles', 'dill/_dill.py'), ('badobjects/badtypes/errors/baditems', 'dill/detect.py')], [('warnings.filters', 'process-wide warning filters', 'stdlib')], ['dill.pickles', 'warnings.filters'])

prop('C22', 'Tracing never changes what is pickled and restores logging',
 """Turning tracing on or off never makes a dump fail, whatever the output stream supports, and writes nothing to the stream being pickled to. Within one
 dump by dill's own pickler, every opening trace line is matched by a closing one at the same depth, and the reported size is the number of bytes
 written between them. Leaving a trace context, normally or by exception, restores the previous log level and
 the previous handlers and closes exactly the files it opened.""",
 ['inputs', 'fault_sequences', 'histories'], "all streams (tellable or not), all nestings of save calls, all nestings of trace contexts, any exception inside",
 "The logger test compares one trace to a regular expression with a seekable buffer; other streams, nested contexts and exceptions are not covered.",
 [LOG], [('TraceAdapter.trace/trace_setup', 'dill/logger.py'), ('TraceManager', 'dill/logger.py'), ('TraceFormatter.format', 'dill/logger.py')], [('_trace_depth/_size_stack', 'per-pickler trace state', 'dill/logger.py')], ['log records', 'logger.handlers, level'])

prop('C23', 'Temporary capture and storage helpers restore and round-trip',
 """capture replaces the named standard stream with a fresh buffer for exactly the duration of the block, changes no other, and puts the original
 object back on every exit. dump and dumpIO (of the temp module) return a handle to the complete, flushed pickle of the object, which load and loadIO read back; dump_source and dumpIO_source one to the object's importable source in UTF-8 and, if the object has a name or an alias is given,
 a final record of it, which load_source and loadIO_source (in text or binary mode) execute in a namespace of its own to return the value of the alias given or else of the recorded name; without either that is an IOError and nothing is executed.
 Keyword arguments other than the alias, the mode, and the suffix of a source (always .py) reach the underlying file function unchanged.""",
 ['inputs', 'fault_sequences'], "all stream names, all objects with retrievable source or picklable, all aliases and keyword arguments, any exception in the block",
 "Tests store two or three functions; exceptions inside capture and keyword forwarding are not sampled.",
 [T], [('capture', 'dill/temp.py'), ('dump/load/dumpIO/loadIO', 'dill/temp.py'), ('dump_source/load_source/dumpIO_source/loadIO_source', 'dill/temp.py')], [], ['sys.stdout', 'loaded object'])

prop('C24', 'Indenting, outdenting and import strings are exact text transformations',
 """outdent removes from each line (or from the first only) the requested number of leading columns of whitespace (all of the first line's by default or if negative, never more than that or than the
 line's own; a tab is up to eight columns, a line ending is none) and changes nothing else, keeping the number of lines, also where a source is retrieved without its indentation; indent prefixes each line that is indented at least as far as the first
 with the given indentation and leaves the others, except that a trailing blank line becomes empty. An import string produced for an importable
 (module, name, alias) triple imports exactly that name from exactly that module, binding it to the alias if one is given and to the name otherwise, where built-in names need no import unless asked for and names of built-in types that are not in builtins come from types. If verification finds that the module path is not importable, the enclosing packages are tried with the same name and alias, and other errors are raised.""",
 ['inputs'], "all texts, all indentation widths, all module/name/alias combinations",
 "Tests transform a few snippets; line counts, blank lines, over-large and negative widths are quantified over all texts.",
 [SRC], [('indent/outdent/_outdent', 'dill/source.py'), ('_getimport', 'dill/source.py')], [], ['source.indent', 'source.outdent', 'source._getimport'])

prop('C25', 'Reference chains are real, shortest, and respect the ignore list',
 """parents (children) returns a chain of live objects that starts (ends) with the given object, in which consecutive objects are linked by actual referent (referrer) relations, whose
 far end is of a requested type, of at most the requested depth, and containing no ignored object other than the start; no shorter such chain exists, and if there is none at all the result is just the object. parent returns the
 object so found one step away, or None; an ignore list is any collection with a length, or a single object without one. Locating an object by address returns an object with that very address or raises ReferenceError (TypeError for a non-address).""",
 ['inputs', 'histories'], "all object graphs, depths, type filters and ignore lists",
 "Tests look one level up from one iterator; chains over arbitrary graphs with ignored nodes are not sampled.",
 [PT, D], [('find_chain', 'dill/pointers.py'), ('parents/children/parent', 'dill/pointers.py'), ('_locate_object', 'dill/_dill.py')], [], ['pointers.parents', 'pointers.children', 'pointers.at'])

prop('C26', 'Deferred-call shims evaluate to the call they stand for',
 """A Reduce object pickles as exactly the reduction it was given and so loads as the result of that call; a Getattr shim loads as the named attribute if it exists and otherwise as its default, when one was given; calling a callable
 shim (given by a function and its arguments) calls the object it stands for with the same arguments. Copying or deep-copying a shim or sentinel returns the same object, and a sentinel pickles as the constant of that name.""",
 ['inputs'], "all reductions, all objects/attribute names/defaults including None as a default",
 "The suite touches shims only through cells; defaults that are None or callable and nested reductions are not enumerated.",
 [SH, D], [('Reduce/_CallableReduce', 'dill/_shims.py'), ('Getattr/register_shim/move_to', 'dill/_shims.py'), ('Sentinel', 'dill/_dill.py')], [], ['dill.loads(dill.dumps(Reduce(...)))'])

prop('C27', 'Change detection flags a memorised object exactly when it changed',
 """After an object and what it refers to have been memorised, asking what changed reports exactly the attributes of its namespace that were added, rebound, removed or whose value itself changed (with the current value, or None if removed),
 and says that its contents changed exactly if items were added, removed, replaced or themselves changed; the state is compared with the memorised one, without the order of sets and dicts, for containers that hold their items as objects.
 Where objects refer to each other in cycles each is examined at most once, so that every question ends: whether anything changed is still exact, and a change is reported at least where it was found first.
 Modules are memorised when they are imported, and an object that was never memorised raises RuntimeError unless only a simple answer was asked for, which is a boolean and then true.""",
 ['inputs', 'histories'], "all object graphs (cyclic included) and all mutation histories between memorising and asking",
 "test_diff makes a few mutations of three small objects.",
 [DF], [('memorise', 'dill/__diff.py'), ('whats_changed/has_changed', 'dill/__diff.py'), ('get_attrs/get_seq', 'dill/__diff.py')], [('memo', 'identity -> recorded attribute and item identities', 'dill/__diff.py')], ['diff.has_changed', 'diff.whats_changed'])

prop('C28', 'Descriptors, dataclass markers and numpy values are restored as what they are',
 """Descriptors that the interpreter makes for a class (of its slots, and of the attributes and methods of built-in types) are restored as what the restored class holds under that name, whatever the class is called, and the markers of the dataclasses module as the markers themselves.
 A numpy ufunc that can be found by its name is restored as itself, and an array of a subclass of ndarray that leaves numpy's reduction unchanged with its class, dtype (byte order as numpy restores it), shape, items and instance attributes, also where the items or attributes refer to the array.
 Two references to one such object within a pickle load as one object (methods of a class such as dict.fromkeys compare equal instead).""",
 ['inputs', 'configurations'], "all classes and names, all array subclasses with any attributes and items (cyclic included), all protocols and option combinations",
 "The suite pickles a few arrays of two subclasses and no descriptor of a class that is not importable.",
 [D], [('_getattr and save_wrapper_descriptor', 'dill/_dill.py'), ('save_dataclasses', 'dill/_dill.py'), ('Pickler.save', 'dill/_dill.py'), ('ndarraysubclassinstance/numpyufunc', 'dill/_dill.py')], [('Pickler.dispatch', 'type -> how it is stored', 'dill/_dill.py')], ['dill.dumps/dill.loads of descriptors, arrays and ufuncs'])

prop('C29', 'Loading a session restores the names of the module, sharing its namespace',
 """Loading a session of a module binds each name that the module had (other than __builtins__ and __loader__) to what it was bound to, copied or referred to as pickling does, and leaves other names of the module it is loaded into as they are.
Objects shared by several names stay shared, references to the module itself or its namespace become the loaded module and its namespace, and functions that used the namespace of the module as their globals use that of the loaded module.
This does not depend on the settings for references and recursion, nor on whether imported names are saved by reference.""",
 ['inputs', 'configurations', 'history'], "all modules (the main module, importable ones and ones made at run time) with any names and values, all settings, files and streams",
 "The suite saves and loads a few modules with fixed contents; it samples two option combinations and no references to a module from its own contents.",
 [S, D], [('dump_module/load_module', 'dill/session.py'), ('_stash_modules/_restore_modules', 'dill/session.py'), ('save_module/save_module_dict', 'dill/_dill.py'), ('_import_module', 'dill/_dill.py'), ('globals handling of save_function', 'dill/_dill.py'), ('Unpickler.find_class', 'dill/_dill.py')], [('Pickler._main/_original_main/_session/_first_pass', 'which module is being saved', 'dill/_dill.py')], ['dill.dump_module', 'dill.load_module'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
