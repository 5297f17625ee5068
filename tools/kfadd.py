"""kfadd.py PROP KEY WHAT INPUT: adds a known finding by hand (never run by a check)."""
import json, sys
F = '/verif/known_findings.json'
d = json.load(open(F))
p, k, w, i = sys.argv[1:5]
assert not any(e['property'] == p and e['key'] == k for e in d['findings'])
d['findings'].append(dict(property=p, key=k, what=w, input=i))
json.dump(d, open(F, 'w'), indent=1)
