"""python3 tools/plant.py SPEC.py: creates /verif/seeded/<id>/ from a specification:
ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python text, may import mini), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = f'/verif/seeded/{ns["ID"]}'
    os.makedirs(d, exist_ok=True)
    tmp = '/tmp/plantcopy'
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp])
    for f, old, new in ns['EDITS']:
        p = os.path.join(tmp, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        for line in old.split('\n'):
            pass
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', tmp, 'diff'], text=True)
    # removed lines must be lines of the original repository
    base = subprocess.check_output(['git', '-C', tmp, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    for f, old, new in ns['EDITS']:
        bl = subprocess.check_output(['git', '-C', tmp, 'blame', '-s', '-l', 'HEAD', '--', f], text=True).split('\n')
        orig = {l.split(')', 1)[1].strip() for l in bl if l.lstrip('^').startswith(base[:30])}
        gone = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        bad = [l for l in gone if l and l not in orig]
        if bad and len(ns['EDITS']) == 1:
            print('NOT ORIGINAL:', bad)
    shutil.rmtree(tmp)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.py', 'w').write(ns['DEMO'].lstrip())
    shutil.copy(f'{HERE}/plant/mini.py', d)
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# Exits 0 if the property holds for the demonstrated case, 1 otherwise.\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
    print('planted', ns['ID'])
