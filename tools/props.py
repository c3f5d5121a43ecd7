#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from groups import PROP_GROUP
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        row=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                 anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                              state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                              observe_at=observe or [], hook_needed=None)),
        technique=technique or 'bounded exhaustive exploration of the real code against an executable reference model',
        note=note or ''))


NOTE = ('Every case inside the stated alphabet and bound is executed on the real code (built from the working tree) and compared with a '
        'reference model on every step; every alarm is replayed alone before it is reported. Values outside the alphabet are not covered; the reference model and g++ are trusted. ')

exec(open(os.path.join(VERIF, 'tools', 'props_list.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['row'], ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['row']['id']
        if i in PROP_GROUP:
            checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=p['technique'], level='model_checking', level_note=NOTE + p['note']))
        else:
            na.append(dict(property=i, reason=p['note'] or 'no check built yet'))
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             checks=checks, not_applicable=na,
             notes='No hooks in /repo: the harnesses link the unmodified sources and intercept only libc sleeps. python3 bin/check.py --replay PROP FILE re-runs one counterexample.')
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    ids = {p['row']['id'] for p in PROPS}
    assert set(PROP_GROUP) <= ids, set(PROP_GROUP) - ids
    print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
