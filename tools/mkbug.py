"""mkbug.py: read JSON lines from a spec python file (list BUGS of dicts) and write /verif/seeded/<id>.

Each dict: id, property, file, old, new (or edits=[(file, old, new)]), needs, breaks, demo (python source).
The patches are made against /repo's HEAD in a scratch worktree copy."""
import json, os, subprocess, sys, shutil, tempfile, runpy
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
d="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$d/demo.py"
'''
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='mkbug')
        try:
            edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
            diff = ''
            files = []
            for f, o, n in edits:
                if f not in files:
                    files.append(f)
                    for s in 'ab':
                        p = os.path.join(tmp, s, f)
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, 'wb') as h:
                            h.write(subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:'+f], capture_output=True, check=True).stdout)
                p = os.path.join(tmp, 'b', f)
                s = open(p, newline='').read()
                assert s.count(o) == 1, (b['id'], f, s.count(o))
                open(p, 'w', newline='').write(s.replace(o, n))
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, capture_output=True)
            diff = r.stdout
            d = os.path.join('/verif/seeded', b['id'])
            os.makedirs(d, exist_ok=True)
            open(d+'/patch.diff', 'wb').write(diff)
            open(d+'/demo.py', 'w').write(b['demo'].lstrip())
            open(d+'/demo.sh', 'w').write(SH)
            os.chmod(d+'/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d+'/meta.json', 'w'), indent=1)
            subprocess.run(['git', '-C', '/repo', 'apply', '--check', d+'/patch.diff'], check=True)
            print('wrote', b['id'])
        finally:
            shutil.rmtree(tmp)
main()
