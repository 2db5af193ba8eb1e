#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'bounded symbolic execution of the real source (Cython/Python) with SMT (z3) verdicts'
NOTE = ('Every obligation is an SMT query over all inputs within the stated bounds, on an encoding regenerated from the working tree; counterexamples are '
        'replayed on the compiled code. Trusted: the symbolic interpreter (differentially validated against the compiled code on solver-chosen inputs), '
        'exact reals for doubles, z3.')
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            d = dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
                     anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in q['state']], observe_at=list(q['observe']), hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(V, 'checks', q['id'].lower() + '.py')) and not q['na']:
            checks.append(dict(property=q['id'], quick_cmd='python3-vt run.py %s --tier quick' % q['id'], thorough_cmd='python3-vt run.py %s --tier thorough' % q['id'],
                               technique=TECH, level='model_checking', level_note=(q['note'] + ' ' if q['note'] else '') + NOTE))
        else:
            na.append(dict(property=q['id'], reason=q['na'] or 'no check built yet'))
    m = dict(version=1, setup_cmd='python3-vt tools/smoke.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo. Every check parses the current sources of /repo and, for replay and differential validation, compiles the functions it needs from them.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not claimed')


main()
