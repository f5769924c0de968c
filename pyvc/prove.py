"""prove.py <property> --out FILE: run every proof unit of the property, each in its own process."""
import sys, os, json, time, argparse, importlib, subprocess, tempfile, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def unit_json(r, u, tier):
    agg = {}
    failed = []
    seen = set()
    for o in r.obls:
        if o.status != 'proved':
            k = (o.label, o.status, o.tainted, o.bounded)
            if k in seen: continue
            seen.add(k)
            failed.append(dict(label=o.label, status=o.status, tainted=bool(o.tainted), bounded=bool(o.bounded), detail=str(o.detail)[:1500],
                               model={k: v for k, v in list((o.model or {}).items())[:60]}, path=o.path))
    pr = [o for o in r.obls if o.status == 'proved']
    return dict(name=u.name, targets=list(u.targets), doc=u.doc, paths=r.paths, total=len(r.obls), proved=len(pr),
                proved_bounded=len(pr) if (r.cut or u.bounded) else 0, unroll=(u.cfg.get('unroll', 3) if r.cut or u.bounded else 0),
                failed=failed, unsupported=r.unsupported[:20], functions=sorted(r.functions), contracts=sorted(r.contracts_used),
                assumed=sorted(r.assumed), solver_s=round(r.solver_time, 3), wall=round(r.wall, 2), labels=sorted({o.label for o in r.obls}))


def one(prop, i, tier, out):
    from pyvc import api
    importlib.import_module('contracts.' + prop.lower())
    u = api.UNITS[prop][i]
    smt2 = [] if tier == 'thorough' else None
    r = api.run_unit(u, seconds=int(os.environ.get('PYVC_UNIT_S', '240' if tier == 'quick' else '900')), smt2=smt2)
    d = unit_json(r, u, tier)
    if smt2: d['cvc5'] = cross(smt2)
    with open(out, 'w') as f: json.dump(d, f)


def cross(smt2):
    """second back end: a sample of the discharged obligations, again, with cvc5"""
    res = dict(tried=0, unsat=0, unknown=0, sat=0)
    seen = set(); t0 = time.time()
    for name, label, s in smt2:
        if label in seen: continue
        seen.add(label)
        if time.time() - t0 > 240: break
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f.write('(set-logic ALL)\n' + s); f.close()
        try:
            o = subprocess.run(['cvc5', '--strings-exp', '--tlimit=5000', f.name], capture_output=True, timeout=20).stdout.decode().strip().split('\n')[0]
        except Exception: o = 'unknown'
        os.unlink(f.name)
        res['tried'] += 1
        res[o if o in ('sat', 'unsat') else 'unknown'] += 1
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out'); ap.add_argument('--limit', type=int, default=420)
    ap.add_argument('--unit', type=int)
    a = ap.parse_args()
    if a.unit is not None: return one(a.prop, a.unit, a.tier, a.out)
    t0 = time.time()
    from pyvc import api
    out = dict(units=[], back_ends={'z3': 0})
    try: importlib.import_module('contracts.' + a.prop.lower())
    except Exception:
        out['error'] = traceback.format_exc()[-3000:]
    us = api.UNITS.get(a.prop, [])
    d = tempfile.mkdtemp(prefix='vprove.')
    todo = list(range(len(us))); run = {}
    width = max(2, (os.cpu_count() or 4))
    done = {}
    while todo or run:
        while todo and len(run) < width:
            i = todo.pop(0)
            f = os.path.join(d, '%d.json' % i)
            run[i] = (subprocess.Popen([sys.executable, os.path.abspath(__file__), a.prop, '--tier', a.tier, '--unit', str(i), '--out', f],
                                       stdout=subprocess.DEVNULL, stderr=open(f + '.err', 'w')), f)
        for i, (p, f) in list(run.items()):
            if p.poll() is not None:
                try: done[i] = json.load(open(f))
                except (OSError, ValueError):
                    done[i] = dict(name=us[i].name, targets=list(us[i].targets), doc=us[i].doc, paths=0, total=0, proved=0, proved_bounded=0, unroll=0, failed=[],
                                   unsupported=['unit crashed: ' + open(f + '.err').read()[-400:]], functions=[], contracts=[], assumed=[], solver_s=0, wall=0, labels=[])
                del run[i]
            elif time.time() - t0 > a.limit:
                p.kill(); p.wait()
                done[i] = dict(name=us[i].name, targets=list(us[i].targets), doc=us[i].doc, paths=0, total=0, proved=0, proved_bounded=0, unroll=0, failed=[],
                               unsupported=['time limit'], functions=[], contracts=[], assumed=[], solver_s=0, wall=0, labels=[])
                del run[i]
        time.sleep(0.05)
    import shutil; shutil.rmtree(d, ignore_errors=True)
    out['units'] = [done[i] for i in sorted(done)]
    out['back_ends'] = {'z3': sum(u['proved'] for u in out['units'])}
    cv = [u['cvc5'] for u in out['units'] if u.get('cvc5')]
    if cv: out['back_ends']['cvc5 (distinct obligations re-discharged)'] = {k: sum(c[k] for c in cv) for k in cv[0]}
    with open(a.out, 'w') as f: json.dump(out, f)


if __name__ == '__main__': main()
