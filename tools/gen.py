#!/usr/bin/env python3
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa

ROOT = os.path.dirname(HERE)


def main():
    rows = []
    for q in sorted(props.CLAIMED + props.DECLINED, key=lambda q: q['id']):
        row = {'id': q['id'], 'title': q['title'], 'statement': q['statement'],
               'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
               'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}}
        if q.get('observe'):
            row['anchors']['observe_at'] = q['observe']
        assert len(q['title']) <= 80, q['title']
        rows.append(row)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
        for r in rows:
            o.write(json.dumps(r) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 -B tools/setup.py',
        'checks': [{
            'property': q['id'], 'quick_cmd': 'python3 -B check.py %s' % q['id'],
            'thorough_cmd': 'python3 -B check.py %s' % q['id'],
            'technique': q['technique'], 'level': 'other', 'level_note': q['note'],
        } for q in sorted(props.CLAIMED, key=lambda q: q['id'])],
        'not_applicable': [{'property': q['id'], 'reason': q['reason']} for q in sorted(props.DECLINED, key=lambda q: q['id'])],
        'notes': 'All checks are static: they parse /repo on every run and execute none of it. No hooks in /repo.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as o:
        json.dump(man, o, indent=1)
        o.write('\n')
    print(len(props.CLAIMED), 'claimed', len(props.DECLINED), 'declined')


main()
