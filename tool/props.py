#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique=None,
         note=None, na=None, observe=None):
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append((d, technique, note, na))


exec(open(os.path.join(HERE, 'tool', 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, technique, note, reason in P:
        pid = d['id']
        if reason:
            na.append({'property': pid, 'reason': reason})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': technique, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
         'not_applicable': na,
         'notes': 'Every check extracts the resolved program (clang AST facts) '
                  'from /repo\'s current working tree and decides the property on '
                  'it without executing it; see DESIGN.md. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
