#!/opt/veriftools/pyvenv/bin/python
"""writes properties.jsonl and MANIFEST.json from pbt/properties/*.json-like Python dicts in proplist.py"""
import json, os, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import proplist
PY = '/opt/veriftools/pyvenv/bin/python'
checks, na = [], []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(proplist.PROPS, key=lambda p: p['id']):
        q = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
             'quantifier': {'over': p['over'], 'text': ' '.join(p['quant'].split())},
             'why_tests_cant': ' '.join(p['why'].split()),
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p.get('observe', []), 'hook_needed': None}}
        assert len(q['title']) <= 80, q['title']
        for fn in p['files']:
            assert os.path.exists(os.path.join('/repo', fn)), fn
        f.write(json.dumps(q) + '\n')
        if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')) and not p.get('na'):
            checks.append({'property': p['id'], 'quick_cmd': '%s pbt/check.py %s --tier quick' % (PY, p['id']),
                           'thorough_cmd': '%s pbt/check.py %s --tier thorough' % (PY, p['id']),
                           'technique': p['technique'], 'level': 'exploration',
                           'level_note': ' '.join(p['note'].split())})
        else:
            na.append({'property': p['id'], 'reason': p.get('na') or 'check not built yet'})
m = {'version': 1, 'setup_cmd': PY + ' pbt/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check observes the public API. Hypothesis (CPython) generates cases, PyPy workers execute them on /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

import importlib
o = [open(os.path.join(HERE, 'design_head.md')).read()]
o.append('## Properties\n')
for p in sorted(proplist.PROPS, key=lambda p: p['id']):
    one = lambda s: ' '.join(s.split())
    o.append('### %s %s\n' % (p['id'], p['title']))
    o.append(one(p['statement']) + '\n')
    o.append('* Quantifier: ' + one(p['quant']))
    o.append('* Tests cannot: ' + one(p['why']))
    o.append('* Decided by: ' + p['technique'] + '; ' + one(p['note']))
    if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
        mod = importlib.import_module('props.' + p['id'].lower())
        o.append('* Generated: ' + one(mod.RULE))
        o.append('* Assumptions: ' + '; '.join(mod.ASSUMPTIONS))
        o.append('* Cost (cases quick/thorough): ' + ', '.join('%s %d/%d' % (f, d['quick'], d.get('thorough', d['quick'] * 10)) for f, d in sorted(mod.FACETS.items())))
    if p.get('na'):
        o.append('* NOT APPLICABLE: ' + p['na'])
    o.append('')
kf = os.path.join(ROOT, 'known_findings.jsonl')
es = [json.loads(l) for l in open(kf) if l.strip()] if os.path.exists(kf) else []
o.append('## Defects repaired in /repo (fix: commits)\n')
o += ['* ' + e['what'] for e in es if e['status'] == 'fixed']
o.append('\n## Known findings (recorded, not repaired)\n')
o += ['* %s: %s. %s' % (e['property'], e['what'], e.get('why', '')) for e in es if e['status'] == 'known'] or ['none']
cj = os.path.join(HERE, 'caught.json')
o.append('\n## Planted bugs and what catches them\n')
if os.path.exists(cj):
    for k, v in sorted(json.load(open(cj)).items()):
        o.append('* seeded/%s (%s): %s' % (k, v['property'], v['result']))
extra = os.path.join(HERE, 'design_tail.md')
if os.path.exists(extra):
    o.append('\n' + open(extra).read())
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(o).rstrip() + '\n')
