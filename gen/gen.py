#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from gen/props.py and the check registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), V, os.path.join(V, 'gen')]
sys.dont_write_bytecode = True
from checks import REGISTRY
from props import PROPS
NOTE = ('Static decision on the typed syntax tree of the current sources: every path of the analysed functions, for all '
        'inputs, by abstract interpretation (no execution, no solver). Trusts clang\'s front end, the models of the standard '
        'library in lib/models.py and the declarations in stubs/ for the two absent libraries. Paths that leave what the '
        'abstract domain can represent are reported UNDECIDED and raise no alarm.')
TRACES = ('abstract interpretation of client programs over the typed syntax tree: the observable events of every path must equal '
          'those of a reference model')
LOCKS = 'lock-set dataflow over every path of every entry point, with ownership and notification rules'
CONST = 'constant propagation over the complete domain, compared with the specified table'
TECH = {'C01': CONST, 'C02': CONST, 'C30': CONST, 'C04': LOCKS, 'C45': LOCKS, 'C46': LOCKS,
        'C03': 'inductive abstract interpretation from an arbitrary queue content, plus client programs',
        'C06': 'typestate over the traces of the abstract interpretation', 'C41': 'class-hierarchy query over the type-checked program',
        'C18': 'typestate of every thread over the traces of the abstract interpretation'}
lines, checks, na = [], [], []
WHERE = {}
for r, _, fs in os.walk('/repo/src'):
    for x in fs:
        WHERE.setdefault(x, os.path.relpath(os.path.join(r, x), '/repo'))


def at(f):
    return WHERE[os.path.basename(f)]


for p in PROPS:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
        'anchors': {'files': [at(f) for f in p['files']], 'mechanism': [{'name': a, 'where': at(b)} for a, b in p['mech']],
                    'state': [{'name': a, 'meaning': b} for a, b in (p['state'] or [])], 'hook_needed': None}}))
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']
    if p['id'] in REGISTRY:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': TECH.get(p['id'], TRACES),
                       'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'no check yet'})
ids = [p['id'] for p in PROPS]
assert len(ids) == len(set(ids))
assert set(REGISTRY) <= set(ids), set(REGISTRY) - set(ids)
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
d = open(V + '/DESIGN.md').read()
a, b = '<!-- properties -->', '<!-- /properties -->'
if a in d:
    t = '\n'.join('- **%s %s.** %s' % (p['id'], p['title'], p['how'] if p['id'] in REGISTRY else 'Not applicable: ' + (p['na'] or 'no check yet')) for p in PROPS)
    d = d[:d.index(a)] + a + '\n' + t + '\n' + d[d.index(b):]
    open(V + '/DESIGN.md', 'w').write(d)
print(len(checks), 'checks,', len(na), 'not applicable')
