#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import config
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    c = config.PROPS.get(i)
    if c:
        checks.append({
            'property': i, 'quick_cmd': 'bin/check %s --tier quick' % i, 'thorough_cmd': 'bin/check %s --tier thorough' % i,
            'technique': c.get('technique', 'runtime monitors over generated workloads under ASan/UBSan/LSan'),
            'level': c['level'], 'level_note': c.get('note', c['rule']),
        })
    else:
        na.append({'property': i, 'reason': config.NOT_APPLICABLE.get(i, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'bin/setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: monitors attach through the public crypto-engine table, OpenSSL RAND_METHOD, sanitizer malloc hooks and callbacks', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
    'notes': 'See DESIGN.md. bin/check <ID> [--tier quick|thorough] [--replay FILE]',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed,', len(na), 'not claimed')
