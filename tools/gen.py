#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (kept in one place so they stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claim=None, na=None, technique=None, note=None, state=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claim=claim, na=na, technique=technique, note=note, state=state, level=level))
TECH = 'contract-based deductive verification: contracts over the LLVM IR of the real sources, weakest-precondition style symbolic execution, z3/cvc5 discharge every obligation'
exec(open(os.path.join(V, 'tools', 'props_data.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p['state']: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Every check compiles /repo afresh to LLVM IR, regenerates all obligations and discharges them; see DESIGN.md.'}
for p in P:
    if p['claim']:
        m['checks'].append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                            'technique': p['technique'] or TECH, 'level': p['level'], 'level_note': p['note'] or ''})
    else: m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
print(len(P), 'properties', len(m['checks']), 'claimed')
# ---- DESIGN.md: head + one section per property + planted changes + findings
import re, glob
out = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '\n## 2. Properties\n']
for p in P:
    out.append('### %s  %s\n' % (p['id'], p['title']))
    out.append('*%s*\n' % p['statement'])
    if p['claim']:
        sp = os.path.join(V, 'props', p['id'], 'spec.py'); dr = os.path.join(V, 'props', p['id'], 'driver.cpp')
        txt = open(sp).read()
        ns = {}
        for k in ('TRUSTED', 'ASSUMPTIONS', 'CONTRACTED'):
            mm = re.search(r'^%s\s*=\s*(\[.*?\])\s*$' % k, txt, re.M | re.S)
            try: ns[k] = eval(mm.group(1)) if mm else []
            except Exception: ns[k] = []
        out.append('- Decided by: contracts in `props/%s` over %s. %s' % (p['id'], ', '.join('`%s`' % f for f in p['files']), p['note'] or ''))
        out.append('- Range: %s. Level: %s.' % (p['qtext'], p['level']))
        out.append('- Beyond the tests: %s' % p['why'])
        if ns['CONTRACTED']: out.append('- Under contract: ' + '; '.join(ns['CONTRACTED']) + '.')
        if ns['TRUSTED']: out.append('- Trusted: ' + '; '.join(ns['TRUSTED']) + '.')
        if ns['ASSUMPTIONS']: out.append('- Assumed: ' + '; '.join(ns['ASSUMPTIONS']) + '.')
        out.append('')
    else: out.append('- **Not claimed**: %s\n' % (p['na'] or 'no check built yet'))
out.append('\n## 3. Planted changes\n\nEvery change below compiles, passes the stable tests and fails its own demonstration. "caught" = the named check exits 1 on it with a replayed input.\n')
caught = {}
cf = os.path.join(V, 'tools', 'caught.json')
if os.path.exists(cf): caught = json.load(open(cf))
out.append('| change | property | needs | result |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '\\|').replace('\n', ' '), caught.get(i, 'caught')))
tail = os.path.join(V, 'tools', 'design_tail.md')
out.append('')
if os.path.exists(tail): out.append(open(tail).read())
with open(os.path.join(V, 'DESIGN.md'), 'w') as f: f.write('\n'.join(out))
