#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, cmd, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, cmd=cmd, technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, cmd=None))
    NA.append((id, reason))


AVN = 'abstract interpretation of the compiled IR in an exact rational-function domain (interprocedural algebraic value numbering)'
exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': p['cmd'], 'thorough_cmd': 'VERIF_TIER=thorough ' + p['cmd'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if p['cmd']],
     'not_applicable': [{'property': a, 'reason': b} for a, b in NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks')
