#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (prose) with the per-property facts taken from checks.py, so that the two cannot drift apart."""
import os, re, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
props = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); props[p['id']] = p
text = open(os.path.join(V, 'tools', 'design.md')).read()
def facts(m):
    i = m.group(1); c = CHECKS[i]
    out = ['### %s %s\n' % (i, props[i]['title']),
           '*Technique*: %s. *Level*: %s.\n' % (c.get('technique', 'sanitized randomized monitoring'), c['level']),
           '*Workload and bounds*: %s.\n' % c['rule'],
           '*Cases*: ' + '; '.join('%s%s %d quick / %d thorough%s' % (j['mode'], ' (TSan)' if j.get('flavor') == 'tsan' else '', j['quick'], j.get('thorough', j['quick'] * 10), ', injected delays' if j.get('perturb') else '') for j in c['jobs']) + '.\n',
           '*Must observe (a zero count is an error of the check, not a pass)*: ' + ', '.join(c['require']) + '.\n']
    if c.get('assumptions'): out.append('*Assumptions*: ' + '; '.join(c['assumptions']) + '.\n')
    return '\n'.join(out)
text = re.sub(r'^@@(C\d+)$', facts, text, flags=re.M)
text = text.replace('@@SEEDS', open(os.path.join(V, 'tools', 'catches.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
