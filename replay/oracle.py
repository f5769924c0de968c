"""Replay harness: executes the contracts of a property on the real code, on concrete inputs.

Each case runs in its own child process, in its own scratch directory (created and removed here).
Usage: python replay/oracle.py C01 [--case NAME] [--tier quick|thorough] [--seed N]   (prints one JSON line per case)
A case is a function; it fails by raising (AssertionError or anything else).
"""
import sys, os, json, time, tempfile, shutil, traceback, importlib, signal, io
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path: sys.path.insert(0, HERE)

CASES = []


class Case:
    def __init__(self, name, fn, timeout, thorough): self.name, self.fn, self.timeout, self.thorough = name, fn, timeout, thorough


def case(name=None, timeout=60, thorough=False):
    def deco(fn):
        CASES.append(Case(name or fn.__name__, fn, timeout, thorough)); return fn
    return deco


class Counter:
    """evaluations of the contract inside one case"""
    n = 0
    samples = []
    tier = 'quick'
    seed = 1


def tick(sample=None):
    Counter.n += 1
    if sample is not None and len(Counter.samples) < 3: Counter.samples.append(str(sample)[:160])


def eq(got, want, what=''):
    tick(what)
    assert type(got) is type(want) and got == want, '%s: got %r, expected %r' % (what, got, want)


def check(cond, what=''):
    tick(what)
    assert cond, what


def raises(cls, fn, *a, **k):
    tick('%s raises %s' % (getattr(fn, '__name__', fn), cls))
    try: r = fn(*a, **k)
    except BaseException as e:
        assert isinstance(e, cls), 'raised %r instead of %r' % (e, cls)
        return e
    raise AssertionError('%r returned %r instead of raising %r' % (fn, r, cls))


def child(code, *args, timeout=60, stdin=None):
    """run python code in a fresh interpreter; returns stdout (fails if the process fails)"""
    import subprocess
    p = subprocess.run([sys.executable, '-c', code] + list(args), capture_output=True, timeout=timeout, input=stdin)
    assert p.returncode == 0, 'child failed: %s' % p.stderr.decode('utf8', 'replace')[-1500:]
    return p.stdout.decode()


def run_case(c, tier, seed):
    rd, wr = os.pipe()
    scratch = tempfile.mkdtemp(prefix='vreplay.')
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        try:
            os.chdir(scratch)
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0); os.dup2(dn, 1); os.dup2(dn, 2)
            tempfile.tempdir = scratch
            os.environ['TMPDIR'] = scratch; os.environ['HOME'] = scratch
            Counter.tier, Counter.seed, Counter.n, Counter.samples = tier, seed, 0, []
            import random; random.seed(seed)
            signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError('case timed out')))
            signal.alarm(c.timeout)
            try:
                c.fn(); res = dict(ok=True)
            except BaseException as e:
                res = dict(ok=False, error='%s: %s' % (type(e).__name__, str(e)[:1500]), tb=traceback.format_exc()[-3000:])
            signal.alarm(0)
            res['n'] = Counter.n; res['samples'] = Counter.samples
            with os.fdopen(wr, 'wb') as f: f.write(json.dumps(res).encode())
        finally:
            os._exit(0)
    os.close(wr)
    import select
    buf = b''; end = time.time() + c.timeout + 15
    while True:
        r, _, _ = select.select([rd], [], [], max(0, end - time.time()))
        if not r: break
        d = os.read(rd, 65536)
        if not d: break
        buf += d
    os.close(rd)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    try: res = json.loads(buf)
    except ValueError: res = dict(ok=False, error='the process died or hung (status %s)' % st, n=0, samples=[])
    res['case'] = c.name
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--case'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    import oracle
    try:
        importlib.import_module(a.prop.lower())
    except BaseException as e:
        print(json.dumps(dict(case='import', ok=False, n=0, samples=[], error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])))
        return
    for c in oracle.CASES:
        if a.case and a.case != c.name: continue
        if c.thorough and a.tier != 'thorough' and not a.case: continue
        print(json.dumps(run_case(c, a.tier, a.seed)), flush=True)


if __name__ == '__main__':
    import oracle
    oracle.main()
