#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import META, NOT_APPLICABLE
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for pid, m in META.items():
        assert len(m['title']) <= 80, pid
        assert pid in PROPS or pid in NOT_APPLICABLE, pid
        for p in m['files']:
            assert os.path.exists('/repo/' + p), (pid, p)
        a = {'files': m['files'], 'mechanism': [{'name': n, 'where': w} for n, w in m['mech']]}
        if m['state']:
            a['state'] = m['state']
        f.write(json.dumps({'id': pid, 'title': m['title'], 'statement': m['statement'], 'quantifier': {'over': m['over'], 'text': m['text']},
                            'why_tests_cant': m['why'], 'anchors': a}) + '\n')
builds = []
for p in PROPS.values():
    b = p['harness'] + (':' + p['flavor'] if p.get('flavor') else '')
    if b not in builds:
        builds.append(b)
assert set(PROPS) <= set(META), set(PROPS) - set(META)
man = {
    'version': 1,
    'setup_cmd': 'python3 tools/vbuild.py ' + ' '.join(builds),
    'checks': [{'property': pid, 'quick_cmd': f'python3 tools/check.py {pid}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tools/check.py {pid}',
                'technique': META[pid]['technique'], 'level': 'exploration', 'level_note': META[pid]['note']} for pid in META if pid in PROPS],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE.items()],
    'notes': 'No hooks in /repo: every monitor observes public behaviour. Commits in /repo are repairs only (known_findings.jsonl).',
}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
