#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the checks, seeded/ and known_findings.json."""
import sys, os, json, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from registry import CHECKS, NOT_APPLICABLE
out = [open(H + '/tools/design_head.md').read()]
cost = json.load(open(H + '/tools/costs.json'))
out.append('## Properties\n')
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    if i not in CHECKS:
        out.append('Not claimed: %s\n' % NOT_APPLICABLE.get(i, 'no check registered yet')); continue
    c = CHECKS[i]
    out.append('* **Enumerated:** ' + c['rule'])
    out.append('* **Deciding method:** ' + c['technique'])
    out.append('* **Oracle, bounds, limits:** ' + c['note'])
    out.append('* **Assumptions:** ' + '; '.join(c['assumptions']))
    out.append('* **Builds:** ' + '; '.join('`%s` on %s%s' % (h['src'], ', '.join(h['cfgs']), ' (%s)' % h['flavour'] if h.get('flavour') else '') for h in c['harness']))
    out.append('* **Why tests cannot:** ' + p['why_tests_cant'])
    out.append('* **Quick cost:** about %s s on 8 cores\n' % cost.get(i, '?'))
out.append('## Planted bugs\n')
out.append('Each was written from the text of a property and the code, is kept under `seeded/<id>/` and was validated with its demonstration: builds, passes the stable tests, fails the demonstration. "Caught" is the quick check of its property.\n')
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
caught = json.load(open(H + '/tools/caught.json'))
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s | %s |' % (n, d['property'], str(d['needs']).replace('|', '/'), caught.get(n, 'not run')))
k = json.load(open(H + '/known_findings.json'))
out.append('\n## Findings that are recorded, not repaired\n')
out += ['* %s' % json.dumps(f) for f in k['findings']] or ['None.']
out.append('\n## Defects of the original tree found by the checks and repaired\n')
out.append('One "fix:" commit each; the list is the `fixed` part of `known_findings.json`.\n')
out += ['* ' + f[len('fixed: '):] for f in k['fixed']]
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
