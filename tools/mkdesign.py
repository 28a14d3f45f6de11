#!/usr/bin/env python3
"""Assemble DESIGN.md from design_head.md, the checks' RULE texts and design_notes.md (one '## Cxx' section each)."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sec = lambda p: {m[0]: m[1].strip() for m in re.findall(r'^## (\S+)[^\n]*\n(.*?)(?=^## |\Z)', open(p).read(), re.M | re.S)}
notes = sec(V + '/tools/design_notes.md')
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 2. Property by property', '']
man = json.load(open(V + '/MANIFEST.json'))
for c in man['checks']:
    i = c['property']
    m = importlib.import_module('checks.' + i.lower())
    out += ['### %s %s' % (i, m.TITLE), '', '*Rule.* ' + m.RULE, '']
    a = getattr(m, 'ASSUMES', None)
    if a:
        out += ['*Assumes.* ' + '; '.join(a) + '.', '']
    out += [notes[i], '', '*Witness edits re-analysed in the thorough tier:* %d.' % len(m.WITNESSES), '']
out += ['## 3. Defects found, repaired and recorded', '', notes['defects'], '']
out += ['## 4. False alarms met and corrected', '', notes['alarms'], '']
out += ['## 5. Planted bugs', '', notes['planted'], '', '| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for s in sorted(os.listdir(V + '/seeded')):
    d = json.load(open(V + '/seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'].replace('|', '/').replace('\n', ' '), ', '.join(res.get(s, [])) or 'not caught'))
out += ['', '## 6. Not applicable', '']
out += ['* **%s**: %s.' % (n['property'], n['reason']) for n in man['not_applicable']]
out += ['', '## 7. Limits', '', notes['limits'], '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
