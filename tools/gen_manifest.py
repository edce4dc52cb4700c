#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness modules present in vprops/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
TECH = 'symbolic execution of the repository\'s Python source with z3 deciding every branch (bounded, exhaustive path exploration); counterexamples replayed on the real code'
NOTE = ('Bounded: holds for every value of the symbolic inputs within the bounds listed per scenario in the evidence file; nothing is claimed outside '
        'them. Trusts the AST instrumentation and string/regex models in symx/ (cross-checked against the real code on sampled paths every run), '
        'CPython and z3.')
EXTRA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i]))
    elif i == 'C26':
        checks.append(dict(property=i, quick_cmd='python3-vt symx/ccheck.py C26 --tier quick', thorough_cmd='python3-vt symx/ccheck.py C26 --tier thorough',
                           evidence_file='evidence/C26.json', level='model_checking',
                           technique='bounded model checking of the C source with CBMC (SAT): symbolic argument bytes against a model of the CPython API; counterexamples replayed on the built extension',
                           level_note='Every byte string of each length up to the bound. Trusts CBMC and the model of the CPython API in cprops/, whose decoders are compared with Python\'s codecs on every run.'))
    elif os.path.exists(os.path.join(ROOT, 'vprops', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3-vt symx/check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt symx/check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=EXTRA.get(i, (TECH, NOTE))[0], level='model_checking',
                           level_note=EXTRA.get(i, (TECH, NOTE))[1]))
    else: na.append(dict(property=i, reason='No check built yet.'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks are needed in /repo: the checks load /repo/pylib from source through their own instrumentation.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
