"""python -m vlib.run ID [--replay FILE] [--family NAME]: decides one property on /repo's working tree."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--replay')
    ap.add_argument('--family', action='append')
    ap.add_argument('--coverage', action='store_true', help='print the lines of the anchored files not executed')
    a = ap.parse_args()
    prop = a.id
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = a.family
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        seed, tier, only = rep['seed'], rep['tier'], [rep['family']]
    from vlib import build
    rc, log = build.build()
    if rc:
        print('the extensions of /repo do not build:\n' + log)
        return 2
    sys.path.insert(0, VERIF)
    import wafo
    if not wafo.__file__.startswith('/repo/src/wafo'):
        print('wafo is imported from', wafo.__file__)
        return 2
    mod = importlib.import_module('checks.' + prop.lower())
    from vlib import harness
    if hasattr(mod, 'run'):          # a check with its own driver (sanitizer builds)
        results, pviol, errors = mod.run(seed, tier, only)
    else:
        results, pviol, errors = harness.run_families(prop, seed, tier, only)

    viol = {}
    for r in results:
        for v in r['violations']:
            viol.setdefault(v['key'], v)
    for v in pviol:
        viol.setdefault(v['key'], v)
    known = {k['key']: k for k in load_known(prop)}
    new = [v for k, v in viol.items() if k not in known]
    old = [v for k, v in viol.items() if k in known]

    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        spec = [d for d in map(json.loads, f) if d['id'] == prop][0]
    lines = {}
    for r in results:
        for fn, ls in r.get('lines', {}).items():
            lines.setdefault(fn, set()).update(ls)
    anch = {}
    for fn in spec['anchors']['files']:
        if fn.startswith('src/wafo/') and fn.endswith('.py'):
            anch[fn] = len(lines.get(fn[len('src/wafo/'):], ()))
    events = {}
    for r in results:
        for k, n in r['events'].items():
            events[k] = events.get(k, 0) + n
    fams = {}
    for r in results:
        f = fams.setdefault(r['family'], dict(evaluations=0, observations=0, skipped=0, wall_s=0.))
        for k in f:
            f[k] = round(f[k] + r[k], 2)
    sigs = set()
    for r in results:
        sigs.update(r['family'] + s for s in r['sigs'])
    samples = []
    for r in results:
        if r['shard'] == 0:
            samples += r['samples'][:1]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in results), distinct_nontrivial=len(sigs),
                            rule=mod.RULE, samples=samples[:12],
                            oracle_observations=sum(r['observations'] for r in results),
                            skipped_outside_domain=sum(r['skipped'] for r in results),
                            families=fams, events=events, executed_lines_of_anchored_files=anch,
                            truncated=[r['family'] for r in results if r['truncated']]),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(new),
              known_findings=[v['key'] for v in old])
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s tier=%s seed=%d evaluations=%d distinct=%d observations=%d skipped=%d families=%d wall=%.1fs' % (
        prop, tier, seed, ev['coverage']['evaluations'], len(sigs), ev['coverage']['oracle_observations'],
        ev['coverage']['skipped_outside_domain'], len(fams), ev['wall_s']))
    if a.coverage:
        coverage(spec, lines)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']]['what']))
    for v in new:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(v['key'].encode()).hexdigest()[:10]))
        with open(fn, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        print('   [%s] (%d times) %s' % (v['key'], v.get('count', 1), v.get('msg', '')[:600].replace('\n', ' ')))
    if new:
        return 1
    if errors:
        for e in errors:
            print('ERROR in family %s: %s' % (e.get('family'), str(e.get('msg'))[-2000:]), e.get('traceback', '')[-1500:])
        return 2
    empty = [r['family'] for r in results if r['observations'] == 0]
    if empty or not results:
        print('ERROR: families that observed nothing:', empty)
        return 2
    return 0


def coverage(spec, lines):
    import ast
    for fn in spec['anchors']['files']:
        if not (fn.startswith('src/wafo/') and fn.endswith('.py')):
            continue
        got = lines.get(fn[len('src/wafo/'):], set())
        tree = ast.parse(open('/repo/' + fn).read())
        print('==', fn, len(got))
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef,)):
                body = set()
                for st in ast.walk(node):
                    if isinstance(st, ast.stmt) and st is not node and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        body.add(st.lineno)
                miss = sorted(body - got)
                if miss:
                    print('  %-40s %d/%d missing %s' % (node.name, len(miss), len(body),
                                                       miss[:30] if len(miss) < len(body) else 'ALL'))


if __name__ == '__main__':
    sys.exit(main())
