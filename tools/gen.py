#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=' '.join(qtext.split()),
                  why=' '.join(why.split()), files=files, mech=mech, technique=technique, note=' '.join(note.split()),
                  state=list(state), observe=list(observe), na=na))





exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = p['observe']
            a['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['qtext']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selfcheck', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
            continue
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
