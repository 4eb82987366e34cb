#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between markers) from props.py, harness heads, known_findings.json, seeded/."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
from design_notes import ORACLE
na = dict(NOT_APPLICABLE); out = []
for p in PROPS:
    if p['id'] in na: continue
    out.append('### %s %s\n' % (p['id'], p['title'])); out.append(p['statement'] + '\n')
    out.append('*Oracle:* ' + ORACLE.get(p['id'], 'the definition in the statement, written out in the harness.'))
    ev = os.path.join(V, 'evidence', p['id'] + '.json')
    for h in sorted(glob.glob(V + '/harness/%s_*.cpp' % p['id'])):
        t = open(h).read(); n = len(re.findall(r'^ENTRY check_(?!t_)', t, re.M)); nt = len(re.findall(r'^ENTRY check_t_', t, re.M))
        out.append('- `%s` (%d entries%s)' % (os.path.basename(h), n, ', %d more in the thorough tier' % nt if nt else ''))
        for l in t.split('\n')[:14]:
            m = re.match(r'// (BOUND|OUTSIDE|ASSUMES): (.*)', l)
            if m: out.append('  - %s: %s' % (m.group(1).lower(), m.group(2)))
    out.append('')
table = '\n'.join(out)
NA = '\n'.join('- **%s** %s: %s' % (p['id'], p['title'], na[p['id']]) for p in PROPS if p['id'] in na) or '(none)'
k = json.load(open(V + '/known_findings.json'))
fixed = '\n'.join('- ' + f for f in k['fixed']); known = '\n'.join('- %s %s: %s' % (x['property'], x['entry'], x['what']) for x in k['known'])
seeds = ['| bug | property | caught by | needs | breaks |', '|---|---|---|---|---|']
res = {}
rp = V + '/tools/seed_results.json'
if os.path.exists(rp): res = json.load(open(rp))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    seeds.append('| %s | %s | %s | %s | %s |' % (i, m['property'], c(res.get(i, m['property'])), c(m['needs']), c(m['what_it_breaks'])))
sec = {'TABLE': table, 'NA': NA, 'FIXED': fixed, 'KNOWN': known, 'SEEDS': '\n'.join(seeds)}
t = open(V + '/DESIGN.md').read()
for n, body in sec.items():
    b, e = '<!-- %s -->' % n, '<!-- /%s -->' % n
    if '@@%s@@' % n in t: t = t.replace('@@%s@@' % n, b + '\n' + body + '\n' + e)
    else: t = re.sub(re.escape(b) + '.*?' + re.escape(e), lambda _: b + '\n' + body + '\n' + e, t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
