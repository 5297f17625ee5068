"""catch.py [ID...]: applies each planted change to /repo, runs the check of its property, undoes it, prints caught or missed."""
import json
import os
import subprocess
import sys

S = '/verif/seeded/'
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True).strip(), 'unclean /repo'
for i in sys.argv[1:] or sorted(os.listdir(S)):
    ids = [j for j in sorted(os.listdir(S)) if j.startswith(i)]
    for j in ids:
        prop = json.load(open(S + j + '/meta.json'))['property']
        try:
            subprocess.check_call(['git', '-C', '/repo', 'apply', S + j + '/patch.diff'])
            r = subprocess.run(['/verif/check.sh', prop], capture_output=True, text=True, cwd='/verif')
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        v = [x for x in r.stdout.split('\n') if x.startswith('VIOLATION property=%s ' % prop)]
        keys = [x.strip().split(']')[0] + ']' for x in r.stdout.split('\n') if x.strip().startswith('[')]
        print(j, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, keys[:4], flush=True)
