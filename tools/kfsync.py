"""kfsync.py PROP [SINCE]: records every 'fix:' commit of /repo that known_findings.json does not list yet as fixed under PROP.
   kfsync.py --list prints the missing ones. (Run by hand, never by a check.)"""
import json, subprocess, sys
F = '/verif/known_findings.json'
d = json.load(open(F))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
log = [l.split(' ', 1) for l in log if l.split(' ', 1)[1].startswith('fix: ')]
have = ' '.join(d['fixed'])
pat = sys.argv[2] if len(sys.argv) > 2 else ''
for h, s in log:
    if (' %s ' % h) in have:
        continue
    if sys.argv[1] == '--list':
        print(h, s)
    elif pat.lower() in s.lower():
        d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, s[5:]))
if sys.argv[1] != '--list':
    json.dump(d, open(F, 'w'), indent=1)
