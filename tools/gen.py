#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py, the check modules, seeded/ and KNOWN_FINDINGS.txt"""
import json, os, sys, ast, glob
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
ids = set()
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in ids
        ids.add(p['id'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                             observe_at=p.get('observe', []), hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['title']
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                       technique=p.get('technique', 'explicit-state exploration of the real code: every bounded operation history / input combination, judged by a reference model'),
                       level=p.get('level', 'model_checking'), level_note=p['note']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='No hooks in /repo are needed: every check drives the public API of the code under /repo/trunk.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
for p in PROPS:
    for f in p['files']:
        if not os.path.exists(os.path.join('/repo', f)):
            print('anchor missing', p['id'], f)
    if p['statement'].count('. ') > 2:
        print('more than three sentences', p['id'])


def consts(path):
    out = {}
    t = ast.parse(open(path).read())
    out['doc'] = ast.get_docstring(t) or ''
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS', 'MIN'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


D = [open(os.path.join(here, 'design_head.md')).read()]
D.append('\n## Properties and how each is decided\n')
for p in PROPS:
    D.append('### %s  %s\n' % (p['id'], p['title']))
    D.append(p['statement'] + '\n')
    if p['id'] in NA:
        D.append('*Not applicable:* ' + NA[p['id']] + '\n')
        continue
    c = consts(os.path.join(root, 'mc', 'checks', p['id'] + '.py'))
    ev = os.path.join(root, 'tools', 'cost.json')
    cost = json.load(open(ev)).get(p['id'], '') if os.path.exists(ev) else ''
    D.append('* **Explored:** %s.' % c.get('BOUNDS', '').rstrip('.'))
    D.append('* **Oracle:** %s' % p['note'])
    if len(c['doc'].split('\n')) > 1:
        D.append('* **Notes:** ' + ' '.join(c['doc'].split('\n')[1:]).strip())
    if c.get('ASSUMPTIONS'):
        D.append('* **Assumes:** ' + '; '.join(c['ASSUMPTIONS']) + '.')
    D.append('* **Why tests cannot:** ' + p['why'])
    if cost:
        D.append('* **Cost:** ' + cost)
    D.append('')
D.append(open(os.path.join(here, 'design_tail.md')).read() if os.path.exists(os.path.join(here, 'design_tail.md')) else '')
D.append('\n## Planted changes and which checks catch them\n')
cj = os.path.join(here, 'caught.json')
caught = json.load(open(cj)) if os.path.exists(cj) else {}
D.append('| planted change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    D.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), ', '.join(caught.get(i, [])) or 'not caught / not run'))
D.append('\n## Genuine defects found (KNOWN_FINDINGS.txt)\n')
kf = os.path.join(root, 'KNOWN_FINDINGS.txt')
if os.path.exists(kf):
    for ln in open(kf):
        if ln.strip() and not ln.startswith('#'):
            D.append('* ' + ln.strip())
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(D) + '\n')
