#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py (development tool; not run by any check)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec, checks
assert sorted(p['id'] for p in spec.PROPS) == sorted(checks.CHECKS) or spec.NOT_APPLICABLE or sys.exit('spec and checks differ: %s' % (set(p['id'] for p in spec.PROPS) ^ set(checks.CHECKS)))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in spec.PROPS:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(q['title']) <= 80, q['title']
        for x in q['anchors']['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        f.write(json.dumps(q) + '\n')
m = dict(version=1, setup_cmd='python3 setup_check.py', checks=[], not_applicable=spec.NOT_APPLICABLE)
for p in spec.PROPS:
    if p['id'] in checks.CHECKS:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
                                technique=p['technique'], level='exploration', level_note=p['note']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid:', len(spec.PROPS), 'properties', len(m['checks']), 'checks')
except ImportError:
    print('no jsonschema')
