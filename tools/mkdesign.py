"""python3-vt tools/mkdesign.py: writes DESIGN.md from tools/design_head.md, the checks, KNOWN_FINDINGS and seeded/."""
import glob, importlib, json, os, re, sys, textwrap
sys.path[:0] = ['/verif/checks', '/verif/lib']
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
known = open('KNOWN_FINDINGS').read().split('\n')
results = json.load(open('tools/plant/results.json')) if os.path.exists('tools/plant/results.json') else {}
out = [open('tools/design_head.md').read()]
w = lambda s: '\n'.join(textwrap.wrap(s, 150))
man = json.load(open('MANIFEST.json'))
na = {x['property'] if 'property' in x else x['id']: x['reason'] for x in man['not_applicable']}
out.append('## The properties\n')
for p in props:
    i = p['id']
    out.append(f'### {i} {p["title"]}\n')
    f = f'checks/{i.lower()}.py'
    if not os.path.exists(f):
        out.append(f'Not claimed: {na.get(i, "no check")}\n')
        continue
    m = importlib.import_module(i.lower())
    out.append(w('Monitored: ' + m.RULE) + '\n')
    if getattr(m, 'NOTE', None):
        out.append(w(m.NOTE) + '\n')
    out.append(w('Assumptions and bounds: ' + '; '.join(m.ASSUMPTIONS) + f'. {m.N["quick"]} generated cases in quick, {m.N["thorough"]} in thorough.') + '\n')
    out.append(w('Must be observed for the check to count: ' + ', '.join(m.REQUIRED) + '.') + '\n')
    ks = [k for k in known if f'property={i} ' in k]
    if ks:
        out.append('Defects found:\n' + '\n'.join(re.sub(r'property=C\d\d ', '', '* ' + k) for k in ks) + '\n')
    ss = []
    for d in sorted(glob.glob('seeded/*/meta.json')):
        j = json.load(open(d))
        if j['property'] == i:
            n = d.split('/')[1]
            ss.append(f'* {n}: {j["what_it_breaks"]}. Needs {j["needs"]}. ' + results.get(n, 'Caught.'))
    if ss:
        out.append('Planted bugs:\n' + '\n'.join(ss) + '\n')
open('DESIGN.md', 'w').write('\n'.join(out))
