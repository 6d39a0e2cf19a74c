#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props  # noqa: E402

checks, na = [], []
for p in props.PROPS:
    i = p['id']
    path = os.path.join(ROOT, 'checks', i + '.py')
    if i in props.NOT_APPLICABLE:
        na.append({'property': i, 'reason': props.NOT_APPLICABLE[i]})
        continue
    if not os.path.exists(path):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    src = open(path).read()
    m = re.search(r"^LEVEL = '(\w+)'", src, re.M)
    level = m.group(1) if m else 'proof'
    note = props.NOTES.get(i, props.DEFAULT_NOTE if level == 'proof'
                           else props.BOUNDED_NOTE)
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt run_check.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt run_check.py %s --tier thorough' % i,
        'technique': props.TECH.get(i, props.DEFAULT_TECH
                                    if level == 'proof' else
                                    props.BOUNDED_TECH),
        'level': level, 'level_note': note})
man = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q pv checks',
       'checks': checks, 'not_applicable': na,
       'notes': 'Contracts live in checks/, the verifier in pv/, the bounded '
       'CPython cross-checks in oracle/.  known_findings.txt lists recorded '
       'and repaired defects.'}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
for p in props.PROPS:
    if len(p['title']) > 80:
        print('title too long', p['id'])
    n = len(re.findall(r'\.(?:\s|$)', p['statement']))
    if n > 3:
        print('statement has %d sentences: %s' % (n, p['id']))
try:
    import jsonschema
    sch = json.load(open('/root/.vp/MANIFEST.schema.json'))
    jsonschema.validate(man, sch)
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props.PROPS:
        jsonschema.validate(p, ps)
except ImportError:
    pass
print(len(checks), 'checks', len(na), 'not applicable')
