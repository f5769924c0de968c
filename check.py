#!/usr/bin/env python3
"""check.py <property> : discharge the property's contracts on /repo's current source; replay on the real code.

exit 0  every refutable obligation held and every replayed contract held
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  the checker itself failed (never a verdict)
"""
import sys, os, json, time, subprocess, argparse, tempfile, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
VENV = '/opt/venv/bin/python'
if not os.path.exists(VENV): VENV = sys.executable
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'

TRUSTED = [
 "pyvc: the symbolic semantics of the Python subset in /verif/pyvc (interp.py, env.py), cross-checked by replaying the same contracts on CPython",
 "z3 5.3 (obligations), cvc5 1.1.2 as second back end in the thorough tier",
 "pickle contract: a reduction (func, args, state...) loads as func applied to faithful copies of args; memo keyed by identity (picklelib.py)",
 "CPython and standard-library builtins as modelled in env.py (each model is listed in DESIGN.md)",
 "parametricity: a faithful copy of a part of an object is identified with the part",
 "integers are mathematical integers (as in Python); termination is not proved; single-threaded execution",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_SEED=str(seed), VERIF_TIER=tier)
    work = tempfile.mkdtemp(prefix='vcheck.')
    limit = 420 if tier == 'quick' else 3000
    procs = {}
    try:
        proof_out = os.path.join(work, 'proof.json')
        pf = subprocess.Popen([VT, os.path.join(HERE, 'pyvc', 'prove.py'), prop, '--tier', tier, '--out', proof_out, '--limit', str(limit)],
                              env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        of = subprocess.Popen([VENV, os.path.join(HERE, 'replay', 'oracle.py'), prop, '--tier', tier, '--seed', str(seed)],
                              env=dict(env, PYTHONPATH=REPO), cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try: oout, oerr = of.communicate(timeout=limit + 60)
        except subprocess.TimeoutExpired:
            kill(of); oout, oerr = of.communicate()
        try: pout, _ = pf.communicate(timeout=max(10, limit + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            kill(pf); pout, _ = pf.communicate()
        cases = []
        for l in oout.decode('utf8', 'replace').splitlines():
            try: cases.append(json.loads(l))
            except ValueError: pass
        try:
            with open(proof_out) as f: proof = json.load(f)
        except (OSError, ValueError):
            proof = dict(units=[], error=pout.decode('utf8', 'replace')[-3000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return report(prop, tier, seed, t0, cases, oerr.decode('utf8', 'replace'), proof)


def kill(p):
    import signal
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass


def known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f: return json.load(f)['findings']
    except (OSError, ValueError): return []


def report(prop, tier, seed, t0, cases, oerr, proof):
    kf = {k['case']: k for k in known() if k['property'] == prop and k['status'] == 'known'}
    kobl = {k['obligation']: k for k in known() if k['property'] == prop and k['status'] == 'known' and k.get('obligation')}
    failing = [c for c in cases if not c['ok'] and c['case'] not in kf]
    for c in cases:
        if not c['ok'] and c['case'] in kf: print('KNOWN-FINDING: property=%s %s' % (prop, kf[c['case']]['what']))
    refuted, undecided, total, disch, bounded, solver = [], [], 0, 0, 0, 0.0
    for u in proof.get('units', []):
        total += u['total']; disch += u['proved'] ; solver += u['solver_s']; bounded += u['proved_bounded']
        for o in u['failed']:
            if o['status'] == 'refuted' and not o['tainted'] and not o['bounded'] and (u['name'] + '/' + o['label']) not in kobl: refuted.append((u, o))
            else: undecided.append((u['name'], o['label'], o['status'] + (' (path with an over-approximated part)' if o['tainted'] else '')))
        for s in u['unsupported']: undecided.append((u['name'], '-', s))
    # a unit that lost all its obligations proves nothing
    for u in proof.get('units', []):
        if u['total'] == 0: undecided.append((u['name'], '-', 'no obligation was generated'))
    vio = []
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    broken = not cases and not proof.get('units')
    if failing or refuted:
        with open(rpath, 'w') as f:
            json.dump(dict(property=prop,
                           failing_inputs=[dict(case=c['case'], error=c.get('error'), traceback=c.get('tb'),
                                                rerun='PYTHONPATH=/repo %s %s/replay/oracle.py %s --case %r' % (VENV, HERE, prop, c['case'])) for c in failing],
                           failed_obligations=[dict(unit=u['name'], obligation=o['label'], functions=u['targets'], solver=o['status'],
                                                    goal=o['detail'], counterexample=o['model'], path=o['path']) for u, o in refuted[:20]]), f, indent=1)
    evidence(prop, tier, seed, t0, cases, proof, total, disch, bounded, solver, undecided, refuted, failing, kf)
    for c in failing: print('replay failed: %s: %s' % (c['case'], c.get('error')))
    for u, o in refuted[:10]: print('obligation failed: %s / %s' % (u['name'], o['label']))
    if undecided: print('undecided: %d' % len(undecided)); [print('  ', *x) for x in undecided[:12]]
    print('%s: %d obligations, %d discharged (%d of them only up to the loop bound), %d replayed contract evaluations in %d cases, %.1f s' % (
        prop, total, disch, bounded, sum(c['n'] for c in cases), len(cases), time.time() - t0))
    if failing:
        print('VIOLATION property=%s replay=%s' % (prop, rpath)); return 1
    if refuted:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath)); return 1
    if broken or not cases:
        print('checker failed: %s %s' % (proof.get('error'), oerr[-2000:])); return 2
    return 0


def evidence(prop, tier, seed, t0, cases, proof, total, disch, bounded, solver, undecided, refuted, failing, kf):
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == prop), 'proof')
    units = proof.get('units', [])
    fns = sorted({f for u in units for f in u['functions']})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=len(failing) + len(refuted),
        coverage=dict(
            obligations=total, discharged=disch, discharged_up_to_loop_bound=bounded,
            checker_cmd='PYTHONPATH=/repo:/verif python3-vt pyvc/prove.py %s' % prop,
            trusted_base=TRUSTED, solver_s=round(solver, 2), back_ends=proof.get('back_ends', {}),
            functions_under_contract=fns,
            units=[dict(name=u['name'], functions=u['targets'], paths=u['paths'], obligations=u['total'], discharged=u['proved'],
                        up_to_loop_bound=u['proved_bounded'], loop_bound=u['unroll'], wall_s=u['wall'], undecided=u['unsupported'][:5],
                        doc=u['doc']) for u in units],
            undecided=[list(x) for x in undecided[:60]],
            contracts_used_at_call_sites=sorted({c for u in units for c in u['contracts']}),
            evaluations=sum(c['n'] for c in cases), distinct_nontrivial=sum(1 for c in cases if c['n'] > 0),
            rule='each case executes the contract on the real code in its own process; a case is non-trivial if at least one postcondition was evaluated',
            samples=[dict(case=c['case'], evaluations=c['n'], ok=c['ok'], some=c['samples']) for c in cases][:40],
            explanation='obligations: verification conditions generated from /repo\'s current source by pyvc and decided by z3; evaluations: the same contracts executed on CPython (bounded, never counted as proved)'),
        assumptions=TRUSTED + sorted({x for u in units for x in u['assumed']}))
    if kf: ev['coverage']['known_findings'] = [k['what'] for k in kf.values()]
    d = os.path.join(HERE, 'evidence'); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


if __name__ == '__main__':
    try: rc = main()
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
