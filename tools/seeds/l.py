# C24
SO = 'dill/source.py'
CLAMP = "    if spaces is None or spaces > indent or spaces < 0: spaces = indent\n"
seed('c24-blank-lines', 'C24', SO, [("        if indent > _indent: continue\n", "        if indent > _indent or not lines[i].strip(): continue\n")], '''
from dill.source import indent
assert indent('    a\\n     \\n  \\n    b\\n', 2) == '      a\\n       \\n  \\n      b\\n', indent('    a\\n     \\n  \\n    b\\n', 2)
assert indent('a\\n\\nb', '# ') == '# a\\n# \\n# b'
''', 'a blank line in the middle of the text that is at least as wide as the indentation of the first line', 'the line is left without the indentation')
seed('c24-trailing-tab', 'C24', SO, [("    if lines[-1].strip() == '': lines[-1] = ''\n", "    if lines[-1].strip(' ') == '': lines[-1] = ''\n")], '''
from dill.source import indent
for blank in ('', ' ', '    ', '\\t', ' \\t', '\\x0c'):
    assert indent('if x:\\n    y\\n' + blank) == '    if x:\\n        y\\n', repr(blank)
''', 'text whose last line is blank, of something else than spaces', 'the last line does not become empty')
seed('c24-second-line', 'C24', SO, [("    for i in range(len(lines) if all else 1):\n", "    for i in range(len(lines) if all else bool(indent) + 1):\n")], '''
from dill.source import outdent
assert outdent('    a\\n    b\\n    c', all=False) == 'a\\n    b\\n    c'
assert outdent('a\\n  b', all=False) == 'a\\n  b'
''', 'outdent with all=False', 'the second line is outdented as well')
seed('c24-more-than-first', 'C24', SO, [(CLAMP + "    for i", "    if spaces is None or spaces < 0: spaces = indent\n    for i"), (CLAMP + "    return", "    if spaces is None or spaces < 0: spaces = indent\n    return")], '''
from dill.source import outdent
assert outdent('  a\\n      b', 4) == 'a\\n    b', outdent('  a\\n      b', 4)
assert outdent('  a\\n      b', 1) == ' a\\n     b'
assert outdent('  a\\n      b', -1) == 'a\\n    b'
''', 'outdent by more than the indentation of the first line, with later lines that are indented further', 'the later lines lose more than the first line, and the layout changes')
seed('c24-alias-within', 'C24', SO, [("    _alias = \" as %s\\n\" % alias if alias else \"\\n\"\n    if alias == tail: _alias = \"\\n\"\n", "    _alias = \"\\n\" if alias in tail else \" as %s\\n\" % alias\n")], '''
from dill.source import _getimport
assert _getimport('os.path', 'join', 'j') == 'from os.path import join as j\\n'
assert _getimport('os.path', 'join', 'join') == _getimport('os.path', 'join') == 'from os.path import join\\n'
assert _getimport('', 'os', 'o', verify=False) == 'import os as o\\n'
''', 'an alias that is a part of the name', 'the import binds the name and not the alias')
seed('c24-package-alias', 'C24', SO, [("                _str = _getimport(_head, tail, alias, verify)\n", "                _str = _getimport(_head, tail, verify=verify)\n")], '''
from dill.source import _getimport
assert _getimport('email.message.Nothing', 'Message') == 'from email.message import Message\\n'
assert _getimport('email.message.Nothing', 'Message', 'M') == 'from email.message import Message as M\\n'
''', 'a verified import with an alias from a path that is not a module, such as that of a nested class', 'the alias is not bound')
