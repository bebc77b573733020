#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
out, checks, na = [], [], []
for p in props.PROPS:
    pid = p['id']
    assert len(p['title']) <= 80, (pid, len(p['title']))
    d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier',
                           'why_tests_cant', 'anchors')}
    out.append(d)
    if 'na' in p:
        na.append({'property': pid, 'reason': p['na']})
        continue
    assert os.path.exists(os.path.join(ROOT, 'mc/checks/%s.py' % pid.lower()))
    checks.append({
        'property': pid, 'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': p['technique'], 'level': p['level'],
        'level_note': p['note']})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in out:
        f.write(json.dumps(d) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
               'not_applicable': na,
               'notes': 'Pure Python under test: the checks import the code '
                        'directly from /repo; nothing is built or cached.'},
              f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
