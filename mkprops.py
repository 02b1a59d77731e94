#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (single source for ids, statements, levels)"""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech], **kw)))
exec(open(__file__.replace('mkprops.py', 'props_src.py')).read())
open('properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
checks = []; na = []
for p in P:
    c = CHECKS.get(p['id'])
    if c: checks.append(dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3-vt engine/check.py %s' % p['id'],
                             thorough_cmd='VERIF_TIER=thorough python3-vt engine/check.py %s' % p['id'],
                             evidence_file='evidence/%s.json' % p['id'], technique=c[0], level=c[1], level_note=c[2]))
    else: na.append(dict(property=p['id'], reason=NA[p['id']]))
json.dump(dict(version=1, setup_cmd='python3-vt engine/setup_check.py', hooks=dict(guard='(none)', enable='no hooks: the checks read /repo as it is', source_commits=[]),
               checks=checks, not_applicable=na, notes='see DESIGN.md'), open('MANIFEST.json', 'w'), indent=1)
