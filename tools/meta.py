#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, ensure_ascii=False) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s' % p['id'],
        'thorough_cmd': './check.sh %s' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p.get('tech', props.TECH),
        'level': p.get('level', 'proof'),
        'level_note': p.get('fullnote') or p.get('note', '') + (' ' if p.get('note') else '') + props.NOTE,
        **({'theorems': p['thm']} if p['thm'] else {}),
    })
m = {'version': 1, 'setup_cmd': './check.sh --build',
     'hooks': {'guard': 'none: contracts are overlaid from /verif/contracts at check time', 'enable': 'no hooks in /repo', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': props.NOTES}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks,', len(na), 'not applicable')
