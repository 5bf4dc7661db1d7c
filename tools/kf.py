"""kf.py PROPERTY N: record the last N commits of /repo as fixed defects of PROPERTY in known_findings.json"""
import json, subprocess, sys
P = '/verif/known_findings.json'
k = json.load(open(P))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '-' + sys.argv[2]], text=True).strip().split('\n')[::-1]
for l in h:
    a, m = l.split(' ', 1)
    assert m.startswith('fix: ')
    k["fixed"].append(f"fixed: property={sys.argv[1]} {a} {m[5:]}")
json.dump(k, open(P, 'w'), indent=1)
