#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the contracts and baseline.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
base = json.load(open(V + '/baseline.json')) if os.path.exists(V + '/baseline.json') else {}
cons = {}
for f in sorted(glob.glob(V + '/contracts/**/*.go', recursive=True)):
    cur = None
    for l in open(f):
        m = re.match(r'//@ (contract|bounded|deductive) (.*)', l)
        if m:
            cur = (m.group(1), m.group(2).split())
        m = re.match(r'func (contract_\w+)\(', l)
        if m and cur:
            kind, ws = cur
            for w in ws:
                if re.match(r'^C\d\d$', w):
                    cons.setdefault(w, []).append((m.group(1), kind, [x for x in ws if not re.match(r'^C\d\d$|^n=', x)]))
            cur = None
NOT = {}
try:
    NOT = json.load(open(V + '/tools/not_applicable.json'))
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if i not in cons or i in NOT:
        na.append({'property': i, 'reason': NOT.get(i, 'no contract has been written for it yet')})
        continue
    pr = [c for c in cons[i] if base.get(c[0], {}).get('status') == 'proved']
    bd = [c for c in cons[i] if c not in pr]
    obl = sum(base[c[0]]['obligations'] for c in pr)
    alone = [c for c in bd if not c[0].endswith('Again')]  # these add to the contracts of single calls
    level = 'proof' if len(pr) >= len(alone) and pr else 'exploration'
    note = ''
    if pr:
        note += 'Proved for all inputs (%d obligations on the unchanged tree): %s. ' % (obl, ', '.join('%s [%s]' % (c[0][9:], ' '.join(c[2])) for c in pr))
    if bd:
        note += 'Bounded stand-ins, checked only by running the contract on generated inputs and not counted as proved: %s. ' % ', '.join('%s [%s]' % (c[0][9:], ' '.join(c[2])) for c in bd)
    note += 'Every contract is also run on generated inputs. Trusted: govc (symbolic execution of go/ssa), the SMT solvers, and the assumed contracts on dependencies listed in the evidence file; see DESIGN.md.'
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contracts on the real code, proved by deductive verification (govc: symbolic execution of go/ssa, loop summaries and invariants, z3/cvc5); the same contracts run concretely for replay',
                   'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Contracts are Go functions in contracts/, overlaid on /repo at check time; /repo carries no hooks.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
for p in props:
    i = p['id']
    pr = [c for c in cons.get(i, []) if base.get(c[0], {}).get('status') == 'proved']
    print(i, '%d/%d proved' % (len(pr), len(cons.get(i, []))), ' '.join(c[0][9:] for c in cons.get(i, []) if c not in pr))
