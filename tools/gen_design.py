#!/usr/bin/env python3
"""fills the tables of DESIGN.md from tools/design/*.md, levels.json, known_findings.json and tools/seed_results.json"""
import json, os, re, glob
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
t = open(H + '/design.md').read()
lv = json.load(open(H + '/levels.json')); dd = json.load(open(H + '/design_notes.json'))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
out = ['## Properties', '']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(dd.get(i, lv.get(i, {}).get('note', lv.get(i, {}).get('reason', 'not built yet'))) + '\n')
    if i in lv and i in dd: out.append('*Level*: %s. %s\n' % (lv[i]['level'], lv[i].get('note', '')))
kn = ['* %s `%s`: %s' % (f['property'], f['case'], f['what']) for f in json.load(open(R + '/known_findings.json'))['findings'] if f['status'] == 'known']
try: sr = json.load(open(H + '/seed_results.json'))
except OSError: sr = {}
sd = ['| bug | property | what it needs | caught by |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % (k, v['property'], v['needs'], v['caught']) for k, v in sorted(sr.items())]
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@KNOWN@@', '\n' + '\n'.join(kn)).replace('@@SEEDS@@', '\n'.join(sd))
open(R + '/DESIGN.md', 'w').write(t)
