#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/catalog.py.

A property is claimed when its check exists; a property without a check must
say why in the catalog.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import catalog  # noqa: E402


def main():
    lines, checks, excluded = [], [], []
    for p in catalog.PROPERTIES:
        assert len(p['title']) <= 80, p['title']
        where = [{'name': n, 'where': w} for n, w in p['mechanism']]
        for _, w in p['mechanism']:
            path = os.path.join('/repo', w.split(':')[0])
            assert os.path.exists(path), path
        lines.append(json.dumps({
            'id': p['id'],
            'title': p['title'],
            'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quantifier']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': sorted({w.split(':')[0] for _, w in p['mechanism']}),
                'mechanism': where,
                'observe_at': p['observe'],
                'hook_needed': None,
            },
        }, ensure_ascii=False))
        if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': f"./run.py check {p['id']} quick",
                'thorough_cmd': f"./run.py check {p['id']} thorough",
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': p['technique'],
                'level': 'exploration',
                'level_note': p['note'],
            })
        else:
            excluded.append({'property': p['id'],
                             'reason': p.get('reason', 'no check yet')})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({
            'version': 1,
            'setup_cmd': './run.py list',
            'checks': checks,
            'not_applicable': excluded,
            'notes': 'Every check drives the public interface of the package '
                     'in /repo/src directly; nothing is built or installed.',
        }, fp, indent=1, ensure_ascii=False)
        fp.write('\n')


main()
