import sys, os, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import api
def main():
    prop = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ''
    importlib.import_module('contracts.' + prop.lower())
    for u in api.UNITS[prop]:
        if pat and not any(q in u.name for q in pat.split("|")): continue
        r = api.run_unit(u)
        bad = [o for o in r.obls if o.status != 'proved']
        print('%-40s paths=%d obls=%d bad=%d unsup=%s cut=%d wall=%.1f solver=%.1f' % (u.name, r.paths, len(r.obls), len(bad), r.unsupported[:5], r.cut, r.wall, r.solver_time))
        seen = set()
        for o in bad:
            if o.label in seen: continue
            seen.add(o.label)
            print('   ', o.status, o.label, '|', o.detail, '|', {k: v for k, v in (o.model or {}).items() if '@' not in k} if os.environ.get('VMODEL') else '')
main()
