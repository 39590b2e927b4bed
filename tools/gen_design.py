#!/usr/bin/env python3
"""Writes the tables of section 6 of DESIGN.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open(V + '/baseline.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
rows = {}
for f in sorted(glob.glob(V + '/contracts/*/*.go')):
    cur = None
    for l in open(f):
        m = re.match(r'//@ (contract|bounded|deductive) (.*)', l)
        if m:
            cur = (m.group(1), m.group(2).split())
        m = re.match(r'func (contract_\w+)\(', l)
        if m and cur:
            ps = [w for w in cur[1] if re.match(r'^C\d\d$', w)]
            fs = [w for w in cur[1] if not re.match(r'^C\d\d$|^n=', w)]
            b = base.get(m.group(1), {})
            for p in ps:
                rows.setdefault(p, []).append((m.group(1)[9:], cur[0], fs, b.get('status', '?'), b.get('obligations', 0)))
            cur = None
out = ['### Contracts per property\n', '"proved": every obligation is discharged for all inputs; "run": bounded run on generated inputs only.\n']
out += ['| property | proved (obligations) | run only |', '|---|---|---|']
for p in props:
    r = rows.get(p['id'], [])
    pr = ', '.join('%s (%d)' % (x[0], x[4]) for x in r if x[3] == 'proved')
    nr = ', '.join(x[0] for x in r if x[3] != 'proved')
    out.append('| %s | %s | %s |' % (p['id'], pr or '-', nr or '-'))
npr = [k for k, b in base.items() if b.get('status') == 'proved']
out.append('\n%d contracts, %d proved with %d obligations.\n' % (len(base), len(npr), sum(base[k]['obligations'] for k in npr)))
fn = {}
for p, rs in rows.items():
    for r in rs:
        for f in r[2]:
            fn.setdefault(f, set()).add((r[3] == 'proved'))
out += ['Functions under a proved contract: %d; under bounded contracts only: %s.\n' % (
    sum(1 for v in fn.values() if True in v), ', '.join(sorted(f for f, v in fn.items() if True not in v)) or 'none')]
out += ['### Planted bugs\n', '| bug | property | caught by |', '|---|---|---|']
caught = {}
try:
    for l in open(V + '/tools/caught.txt'):
        i, c = l.rstrip('\n').split('\t')
        caught[i] = c
except FileNotFoundError:
    pass
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    out.append('| %s | %s | %s |' % (d, m['property'], caught.get(d, '(its property\'s quick check)')))
s = open(V + '/DESIGN.md').read()
k = '<!-- generated by tools/gen_design.py -->\n'
s = s[:s.index(k) + len(k)] + '\n'.join(out) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
