#!/opt/venv/bin/python
"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, G
with open(f'{V}/properties.jsonl', 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        assert q['statement'].count('. ') <= 2, q['id']
        a = {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']]}
        if q['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in q['state']]
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                            'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'], 'anchors': a}) + '\n')
built = [q for q in P if os.path.exists(f"{V}/mc/checks/{q['id'].lower()}.py")]
M = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': q['id'], 'quick_cmd': f"bash run.sh {q['id']}", 'thorough_cmd': f"bash run.sh {q['id']} --thorough",
                 'technique': 'model checking: ' + q['tech'], 'level': 'model_checking', 'level_note': q['note']} for q in built],
     'not_applicable': [{'property': q['id'], 'reason': 'check not built yet'} for q in P if q not in built],
     'notes': 'Pure Python: no build step; every check imports geocat.comp from /repo. See DESIGN.md.'}
json.dump(M, open(f'{V}/MANIFEST.json', 'w'), indent=1)
try:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import jsonschema
    jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(f'{V}/properties.jsonl'):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    print('no jsonschema')
print(len(P), 'properties', len(built), 'checks')
