import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = json.load(open(V + '/known_findings.json'))
import sys; sys.path[:0] = [V + '/vf', V + '/vf/checks']
ORACLE = {}
exec(open(V + '/vf/design_oracles.py').read())
import importlib
out = []
for p in props:
    i = p['id']; src = open(V + '/vf/checks/%s.py' % i.lower()).read(); m = importlib.import_module(i.lower()).CHECK
    g = lambda t: (re.search(r'^# %s: (.*)$' % t, src, re.M) or [0, ''])[1]
    out.append('### %s %s\n\n*Technique.* %s.\n\n*Generated.* %s.\n\n*Oracle.* %s\n\n*Bounds, cost.* %s; %d cases quick, %d thorough; builds %s; %s\n' % (
        i, p['title'], g('technique'), m.rule.strip().rstrip('.'), ORACLE[i][0], g('level_note').rstrip('.'), m.n_quick, m.n_thorough, ', '.join(m.wants), ORACLE[i][1]) + '\n*Assumed.* ' + '; '.join(m.assumptions) + '.\n')
fx = '\n'.join('* %s `%s` %s' % (e['property'], *re.match(r'fixed: property=\S+ (\S+) (.*)', e['fixed'], re.S).groups()) for e in sorted(kf, key=lambda e: e['property']) if 'fixed' in e)
fi = '\n'.join('* %s `%s`: %s' % (e['property'], e['key'], e['what']) for e in kf if 'key' in e)
rows = ['| id | property | needs | breaks | caught by |', '|---|---|---|---|---|']
try: caught = json.load(open(V + '/vf/caught.json'))
except OSError: caught = {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = d.split('/')[-2]; m = json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], caught.get(s, '?')))
t = open(V + '/vf/design.in.md').read()
for a, b in (('PROPS', '\n'.join(out)), ('FIXED', fx), ('FINDINGS', fi), ('SEEDED', '\n'.join(rows))): t = t.replace('{{%s}}' % a, b)
open(V + '/DESIGN.md', 'w').write(t)
