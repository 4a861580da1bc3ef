#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from sa/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import props

with open(H + '/properties.jsonl', 'w') as f:
    for p in props.P.values():
        files = sorted({a for a, _ in p['anchors']})
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': files, 'mechanism': [{'name': b, 'where': a} for a, b in p['anchors']]}}) + '\n')
    for i, t, s, over, why in props.NA:
        f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': over.split(), 'text': 'every execution of a cluster'},
                            'why_tests_cant': 'Tests run a few short executions of small clusters.',
                            'anchors': {'files': ['src/raft.cc'], 'mechanism': [{'name': 'whole system', 'where': 'src'}]}}) + '\n')
checks = []
for p in props.P.values():
    checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'technique': p.get('technique') or 'static value-flow summaries: property rules and reviewed-reference equivalence',
                   'level': 'other',
                   'level_note': 'All paths of every function in the property\'s scope, abstractly interpreted over all inputs (ideal integers, modelled library containers); '
                                 'compared with reviewed reference summaries and checked by the rules named in the evidence. Trusts the clang front end, the library models and the '
                                 'review of the reference; what cannot be modelled is reported undecided, not as a violation.'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': i, 'reason': w} for i, _, _, _, w in props.NA],
           'notes': 'See DESIGN.md. known-findings.txt lists the defects found; all were repaired in /repo.'}, open(H + '/MANIFEST.json', 'w'), indent=1)

# ---- the generated part of DESIGN.md
from sa import oblig, obs, rules
seeds = {}
for d in sorted(os.listdir(H + '/seeded')) if os.path.isdir(H + '/seeded') else []:
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    seeds.setdefault(m['property'], []).append((d, m['needs']))
head = open(H + '/DESIGN.md').read().split('<!-- generated -->')[0]
o = ['<!-- generated -->', '## Property by property', '',
     'Scope: the functions whose summaries decide the property; `[…]` restricts to message types, `{…}` to fields. Every entry is compared over all paths; "proved" lists the obligations shown on the tree itself.', '']
for p in props.P.values():
    o.append('### %s %s' % (p['id'], p['title']))
    o.append('* Quantifies over: %s.' % p['quant'].rstrip('.'))
    o.append('* Scope: ' + ', '.join('`%s`' % x for x in p['scope']) + '.')
    ob = [x for x in oblig.OB if x.pid == p['id']]
    if ob:
        o.append('* Proved: ' + '; '.join('%s (%s `%s`)' % (x.name, 'on every path of' if isinstance(x, oblig.Rows) else 'at every ' + ', '.join(sorted([c.replace('craft::', '') for c in x.calls] + list(x.writes))) + ' in',
                                                            ' '.join(f.replace('craft::', '') for f in x.funcs)) for x in ob) + '.')
        for x in ob:
            if getattr(x, 'given', None):
                o.append('* Given: ' + '; '.join('`%s`: %s' % kv for kv in x.given.items()) + '.')
    if p['rules']:
        o.append('* Rules: ' + '; '.join('`%s` (%s)' % (r, ' '.join((rules.RULES[r.split(':')[0]].__doc__ or '').split())) for r in p['rules']) + '.')
    o.append('* Beyond tests: ' + p['why'])
    if seeds.get(p['id']):
        o.append('* Planted bugs caught by this check: ' + ', '.join('`%s`' % s for s, _ in seeds[p['id']]) + '.')
    o.append('')
o += ['## Not applicable', '']
for i, t, s, _, w in props.NA:
    o.append('* **%s %s**: %s.' % (i, t, w))
open(H + '/DESIGN.md', 'w').write(head + '\n'.join(o) + '\n')
