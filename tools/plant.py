"""Confirms planted changes in a scratch copy: plant.py ID...   (or --all)

For each /verif/seeded/ID: copies /repo to /tmp/plant.ID, builds, runs demo.sh (must exit 0), applies patch.diff,
builds, runs demo.sh (must not exit 0) and the stable tests of /opt/vp/BASELINE.json (must all pass); removes the copy.
"""
import json
import os
import re
import shutil
import subprocess
import sys

notest = '--notest' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    S = '/verif/seeded/' + i
    W = '/tmp/plant.' + i
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', W])
    T = W + '/.vp'
    os.makedirs(T)
    for fn in ('env.sh', 'build.sh', 'test.sh', 'build_ext.py', 'results.py'):
        t = open('/opt/vp/' + fn).read().replace('/repo', W).replace('/opt/vp/', T + '/')
        t = t.replace('unset PYTHONPATH', 'export PYTHONPATH=%s/src' % W)
        open(T + '/' + fn, 'w').write(t)
    env = dict(os.environ, PYTHONPATH=W + '/src', PYTHONDONTWRITEBYTECODE='1', PATH='/opt/venv/bin:' + os.environ['PATH'])

    def run(*c, to=900):
        try:
            return subprocess.run(c, cwd=W, env=env, capture_output=True, text=True, timeout=to)
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(c, 124, '', 'timeout')
    msg = []
    b = run('bash', T + '/build.sh')
    d0 = run('bash', S + '/demo.sh', to=300)
    msg.append('build %d demo(unchanged) %d' % (b.returncode, d0.returncode))
    a = run('git', 'apply', S + '/patch.diff')
    b = run('bash', T + '/build.sh')
    d1 = run('bash', S + '/demo.sh', to=300)
    msg.append('apply %d build %d demo(patched) %d' % (a.returncode, b.returncode, d1.returncode))
    lost = []
    if not notest:
        run('bash', T + '/test.sh', W + '/out.json', to=1500)
        base = json.load(open('/opt/vp/BASELINE.json'))
        out = json.load(open(W + '/out.json'))
        st = base.get('stable', base.get('stable_tests', base.get('passed')))
        ok = set(out['passed'])
        lost = [t for t in st if t not in ok]
        msg.append('stable tests lost: %d %s' % (len(lost), lost[:5]))
    good = not (d0.returncode or a.returncode or b.returncode or lost) and d1.returncode
    print(i, 'GOOD' if good else 'BAD', '; '.join(msg), flush=True)
    if not good or '-v' in sys.argv:
        print(d0.stdout[-600:], d0.stderr[-1500:], a.stderr, d1.stdout[-600:], d1.stderr[-800:], flush=True)
    shutil.rmtree(W, ignore_errors=True)
