F = 'dill/_dill.py'
seed('c09-append-position', 'C09', F, [('''    elif position >= 0 and fmode != HANDLE_FMODE:
        f.seek(position)
''', '''    elif position > 0 and fmode != HANDLE_FMODE:
        f.seek(position)
''')], '''
import dill, os
open('q', 'w').write('hello')
f = open('q', 'r+'); blob = dill.dumps(f, fmode=dill.FILE_FMODE); f.close()
g = open('q', 'a'); g.seek(0); blob2 = dill.dumps(g, fmode=dill.CONTENTS_FMODE); g.close()
h = dill.loads(blob); assert h.tell() == 0 and h.read() == 'hello'; h.close()
h = dill.loads(blob2); assert h.tell() == 0, h.tell(); h.close()
''', 'a handle opened for appending and at position 0, with CONTENTS_FMODE', 'it comes back at the end of the file')
seed('c09-exclusive-flags', 'C09', F, [('''                flags = os.O_CREAT
                if "+" in mode:
                    flags |= os.O_RDWR
                else:
                    flags |= os.O_WRONLY
''', '''                flags = os.O_CREAT
                if "+" in mode:
                    flags |= os.O_RDWR
                else:
                    flags |= os.O_WRONLY
                if "w" in mode and position == 0: # nothing was written
                    flags |= os.O_TRUNC
''')], '''
import dill
open('q', 'w').write('hello')
f = open('q', 'w'); f.write('abc'); f.seek(0)
blob = dill.dumps(f, fmode=dill.CONTENTS_FMODE); f.close()
assert open('q').read() == 'abc'
dill.loads(blob).close()
assert open('q').read() == 'abc'
''', 'a handle opened for writing, moved back to the start, with CONTENTS_FMODE', 'the contents of the file are lost')
seed('c09-exclusive', 'C09', F, [('''               and ("w" in mode or "x" in mode):
                # stop truncation when opening
                flags = os.O_CREAT
''', '''               and ("w" in mode or "x" in mode):
                # stop truncation when opening
                flags = os.O_CREAT
                if not exists and "x" in mode or current_size > position:
                    flags |= os.O_EXCL * ("x" in mode)
''')], '''
import dill, os
f = open('q', 'x'); f.write('abcdef'); f.seek(2); blob = dill.dumps(f, fmode=dill.CONTENTS_FMODE); f.close()
g = dill.loads(blob); assert g.tell() == 2, g.tell(); g.close()
assert open('q').read() == 'abcdef'
''', 'a handle opened with mode x and moved back, with CONTENTS_FMODE', 'it cannot be loaded while its file exists')
