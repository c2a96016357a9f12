#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
R = 'modules/nginx-rtmp-module/'
T = 'modules/nginx-toolkit-module/'
C = 'modules/nginx-client-module/'
M = 'modules/nginx-multiport-module/'
S = 'modules/nginx-ts-module/src/'


def p(id, title, statement, over, text, why, files, mech, check=None, note='', reason=None, level='exploration', tech=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  check=check, note=note, reason=reason, level=level, tech=tech))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        for fn in x['files']:
            assert os.path.exists('/repo/' + fn), fn
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['why'],
                            'anchors': {'files': x['files'],
                                        'mechanism': [{'name': a, 'where': b} for a, b in x['mech']]}}) + '\n')
checks, na = [], []
for x in P:
    if x['check']:
        cmd = 'python3-vt checks/%s' % x['check']
        checks.append({'property': x['id'], 'quick_cmd': cmd, 'thorough_cmd': 'env VERIF_TIER=thorough ' + cmd,
                       'technique': x['tech'] or 'property-based testing (Hypothesis, model/oracle, shrinking) against the running server',
                       'level': x['level'], 'level_note': x['note'] or
                       'Generated cases only: a pass means no counterexample among the cases counted in the evidence file. Trusts the '
                       'reference model in the check, the independent RTMP/AMF/FLV/TS codecs in lib/ and the installed nginx core.'})
    else:
        na.append({'property': x['id'], 'reason': x['reason'] or 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 lib/build.py plain asan',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Every check rebuilds the modules from /repo (PV_REPO overrides) and drives a private nginx on loopback or an in-process harness.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
