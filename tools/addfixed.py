"""addfixed.py PROPS [COMMIT]: record a fix commit of /repo in known_findings.json."""
import json, subprocess, sys
c = sys.argv[2] if len(sys.argv) > 2 else 'HEAD'
o = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', c], capture_output=True, text=True).stdout.strip()
h, s = o.split(' ', 1)
assert s.startswith('fix:')
p = '/verif/known_findings.json'
d = json.load(open(p))
if not any(h in f for f in d['fixed']):
    d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, s[4:].strip()))
    json.dump(d, open(p, 'w'), indent=1)
print(d['fixed'][-1])
