P, D = 'dill/pointers.py', 'dill/_dill.py'
seed('c25-shortest', 'C25', P, [("        target = queue.pop(0)\n", "        target = queue.pop() # the latest found\n")], '''
from dill.pointers import parents
class N: pass
class G: pass
class A:
    __slots__ = ('a', 'b')
goal = G(); far = [goal]; s = A(); s.a = (goal,); s.b = [[far]]
c = parents(s, G, 6); assert len(c) == 3, len(c)
s = A(); s.b = (goal,); s.a = [[far]]
c = parents(s, G, 6); assert len(c) == 3, len(c)
''', 'a longer chain found after a shorter one', 'the chain is not the shortest')
seed('c25-depth-zero', 'C25', P, [("        if tdepth < max_depth:\n", "        if tdepth < max_depth or not tdepth: # always look around the object\n")], '''
from dill.pointers import parents
x = [1.5]; y = [x]
assert len(parents(y, float, 0)) == 1
assert len(parents(y, list, 0)) == 1 and len(parents((x,), list, 0)) == 1
''', 'depth=0', 'a chain longer than the requested depth')
seed('c25-equal-waiting', 'C25', P, [("                if id(source) not in depth:\n", "                if id(source) not in depth and source not in queue[-8:]:\n")], '''
from dill.pointers import parents
class G: pass
class K:
    def __init__(self, x): self.x = x
    def __eq__(self, other): return type(other) is K
    __hash__ = None
g = G(); a, b = K(None), K(g)
for s in ((a, b), (b, a)):
    c = parents(s, G, 2); assert len(c) == 3 and c[-1] is g, c
''', 'two objects at the same distance that are equal, the second of which leads to the goal', 'an existing chain is not found')
seed('c25-parent-equal', 'C25', P, [("    if parent is obj:\n", "    if parent is obj or parent == obj:\n")], '''
from dill.pointers import parent
class K(list):
    def __eq__(self, other): return type(other) is S
    __hash__ = None
k = K(); p = K([k])
assert parent(p, K) is None
class S:
    __slots__ = ('x',)
s = S(); s.x = k
assert parent(s, K) is k
''', 'a parent that compares equal to the object', 'parent returns None although it was found')
seed('c25-address', 'C25', D, [("    try: address = hex(address)\n", "    try: address = hex(int(address))\n")], '''
from dill.pointers import at
for bad in ('12', b'12', 1.5):
    try: at(bad)
    except TypeError: continue
    raise AssertionError(bad)
''', 'a text made of digits, or a float', 'ReferenceError instead of TypeError')
