"""kf.py add PROP KEY WHAT INPUT | kf.py fixed PROP COMMIT WHAT: maintains known_findings.json by hand (never run by a check)."""
import json, sys
F = '/verif/known_findings.json'
d = json.load(open(F))
a = sys.argv[1:]
if a[0] == 'add':
    d['findings'] = [k for k in d['findings'] if (k['property'], k['key']) != (a[1], a[2])]
    d['findings'].append(dict(property=a[1], key=a[2], what=a[3], input=a[4]))
else:
    d['fixed'].append('fixed: property=%s %s %s' % (a[1], a[2], a[3]))
json.dump(d, open(F, 'w'), indent=1)
