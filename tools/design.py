"""Writes DESIGN.md: hand-written head and notes + per-property bounds taken from the check modules, findings and planted bugs."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'design_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
kf = json.load(open(os.path.join(V, 'known_findings.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = [HEAD]
out.append('## Properties and how each is decided\n')
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i in na:
        out.append('**Not claimed**: %s\n' % na[i])
        continue
    mod = ast.parse(open(os.path.join(V, 'mc', 'checks', i.lower() + '.py')).read())
    env = {}
    for n in mod.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    oracle, reach = NOTES.get(i, ('', ''))
    out.append('* **Decided by** %s' % TECHNIQUE.get(i, 'exhaustive execution of the real code on every element of the bounded space below; each execution is compared with the oracle.'))
    if oracle:
        out.append('* **Oracle**: ' + oracle)
    out.append('* **Bounds (quick)**: ' + env['BOUNDS']['quick'])
    out.append('* **Bounds (thorough)**: ' + env['BOUNDS']['thorough'])
    if env.get('ASSUMPTIONS'):
        out.append('* **Left out / assumed**: ' + '; '.join(env['ASSUMPTIONS']))
    if reach:
        out.append('* **Beyond the tests**: ' + reach)
    fx = [x.split(' ', 2)[2] for x in kf['fixed'] if ('property=%s ' % i) in x]
    if fx:
        out.append('* **Defects found and repaired**: ' + '; '.join('`%s` %s' % tuple(x.split(' ', 1)) for x in fx))
    kn = [k for k in kf.get('known', []) if k['property'] == i]
    if kn:
        out.append('* **Known findings (recorded, not repaired)**: ' + '; '.join(k['what'] for k in kn))
    out.append('')
out.append('## Planted bugs\n')
out.append(SEED_HEAD)
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], CAUGHT.get(s, m['property'] + ' quick')))
out += rows + ['']
out.append(TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)), 'bytes')
