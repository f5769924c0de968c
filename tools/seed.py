#!/usr/bin/env python3
"""Development tool for planted bugs.  seed.py make [ID..]: writes /verif/seeded/<id>/ from tools/seeds/*.py;
seed.py test [ID..]: applies each to /repo, runs tests, demo and the property's check, and undoes it."""
import sys, os, json, subprocess, shutil, tempfile, runpy, glob, difflib
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SPECS = {}; RES = {}
def seed(id, prop, file, edits, demo, needs, breaks):
    assert id not in SPECS, id
    SPECS[id] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks)
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds on this input
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
D="$(cd "$(dirname "$0")" && pwd)"
S=$(mktemp -d) || exit 3
trap 'rm -rf "$S"' EXIT
REPO="$PWD"
cd "$S" && TMPDIR="$S" HOME="$S" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$REPO" timeout 120 $PY "$D/demo.py"
'''
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(i, s):
    d = os.path.join(SEEDED, i); os.makedirs(d, exist_ok=True)
    p = os.path.join('/repo', s['file']); old = new = open(p).read()
    for a, b in s['edits']:
        assert new.count(a) == 1, '%s: %d matches of %r' % (i, new.count(a), a)
        new = new.replace(a, b)
    a, b = old.splitlines(True), new.splitlines(True)
    diff = ''.join(difflib.unified_diff(a, b, 'a/' + s['file'], 'b/' + s['file']))
    with open(os.path.join(d, 'patch.diff'), 'w') as f: f.write('diff --git a/%s b/%s\n' % (s['file'], s['file']) + diff)
    with open(os.path.join(d, 'demo.sh'), 'w') as f: f.write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'demo.py'), 'w') as f: f.write(s['demo'].strip('\n') + '\n')
    with open(os.path.join(d, 'meta.json'), 'w') as f: json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), f, indent=1)
def test(i, s, tests=True, verbose=False):
    """in a mount namespace of its own: /repo is a scratch copy"""
    d = os.path.join(SEEDED, i)
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        os.makedirs(w + '/ev'); os.makedirs(w + '/tmp')
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        with open(w + '/nobuild.sh', 'w') as f: f.write('exit 0\n')
        with open(w + '/run.sh', 'w') as f: f.write("""
mount --bind %(w)s/repo /repo; mount --bind %(w)s/ev /verif/evidence; mount --bind %(w)s/nobuild.sh /opt/vp/build.sh
cd /repo; git config --global --add safe.directory /repo 2>/dev/null
bash %(d)s/demo.sh >%(w)s/clean.out 2>&1; echo $? >%(w)s/clean.rc
git apply %(d)s/patch.diff || exit 1
bash %(d)s/demo.sh >%(w)s/bug.out 2>&1; echo $? >%(w)s/bug.rc
%(t)s
cd /verif; %(c)s
""" % dict(w=w, d=d, t='bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1' % w if tests else '',
           c='python3 check.py %s >%s/check.out 2>&1; echo $? >%s/check.rc' % (s['prop'], w, w) if s['prop'] in json.load(open(HERE + '/levels.json')) else ''))
        r = sh('unshare', '-Urm', 'bash', w + '/run.sh', env=dict(os.environ, TMPDIR=w + '/tmp', HOME=w + '/tmp'))
        def rd(n):
            try: return open(os.path.join(w, n)).read().strip()
            except OSError: return ''
        res = dict(demo_clean=rd('clean.rc'), demo_bug=rd('bug.rc'), demo_out=(rd('bug.out') or rd('clean.out')).splitlines()[-1:], check=rd('check.rc'), log=r.stdout[-300:])
        if tests:
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            try: passed = set(json.load(open(w + '/t.json'))['passed'])
            except Exception: passed = set()
            res['tests_lost'] = [x for x in stable if x not in passed][:5]
        res['lines'] = [l[:150] for l in rd('check.out').splitlines() if l.startswith(('VIOL', 'replay failed', 'obligation', 'undecided', 'checker'))]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    good = res['demo_clean'] == '0' and res['demo_bug'] not in ('', '0') and not res.get('tests_lost')
    how = 'input' if any(l.startswith('VIOL') and 'no-failing' not in l for l in res['lines']) else 'obligation'
    ob = ' +obl' if any(l.startswith('obligation') for l in res['lines']) else ''
    if tests:
        RES[i] = dict(property=s['prop'], needs=s['needs'], counts=good, caught=('%s%s' % (how, ob) if res.get('check') == '1' else 'missed'))
    print('%-34s %s %s %s' % (i, 'counts' if good else 'BAD', 'CAUGHT(%s%s)' % (how, ob) if res.get('check') == '1' else 'missed(%s)' % res.get('check'), '' if good and res.get('check') == '1' and not verbose else json.dumps(res, indent=1)), flush=True)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    for f in sorted(glob.glob(HERE + '/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), dict(seed=seed))
    ids = [x for x in sys.argv[2:] if not x.startswith('-')]
    sel = [i for i in SPECS if not ids or any(i.startswith(x) for x in ids)]
    for i in sel: make(i, SPECS[i])
    if sys.argv[1] == 'test':
        with ThreadPoolExecutor(4) as ex:
            for x in [ex.submit(test, i, SPECS[i], '--notests' not in sys.argv, '-v' in sys.argv) for i in sel]: x.result()
        p = HERE + '/seed_results.json'
        try: old = json.load(open(p))
        except OSError: old = {}
        old = {k: v for k, v in old.items() if k in SPECS}; old.update(RES)
        json.dump(old, open(p, 'w'), indent=1)
