#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below (dev tool, not run by checks)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level='proof', note='', state=None, thorough=True, na=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech]))
    if state:
        d['anchors']['state'] = state
    P.append((d, technique, level, note, na))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

checks = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, tech, level, note, na in P:
        f.write(json.dumps(d) + '\n')
        if na:
            NA.append(dict(property=d['id'], reason=na))
        else:
            checks.append(dict(property=d['id'], quick_cmd='python3-vt lib/run.py ' + d['id'],
                               thorough_cmd='python3-vt lib/run.py ' + d['id'],
                               evidence_file='evidence/%s.json' % d['id'], technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='true', checks=checks)
if NA:
    m['not_applicable'] = NA
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
