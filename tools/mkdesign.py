#!/usr/bin/env python3
"""Writes DESIGN.md from design/, checks.py, properties.jsonl and seeded/."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
why={}
out=open(H + '/design/head.md').read()
for l in open(H + '/properties.jsonl'):
    p=json.loads(l); c=CHECKS[p['id']]
    src=[]
    for u in c['units']:
        for s in u['srcs'][:2]:
            if isinstance(s,(tuple,list)): s=s[0]
            s=s.replace('repo:','')
            if s not in src: src.append(s)
    out+='### %s %s\n\n'%(p['id'],p['title'])
    out+='* *Workload:* %s.\n'%c['rule'].rstrip('.')
    out+='* *Oracle and method:* %s (%s).\n'%(c['technique'].rstrip('.'),', '.join('`%s`'%s for s in src))
    out+='* *Cases:* %s quick, %s thorough.\n'%(' + '.join(str(u['cases'][0]) for u in c['units']),' + '.join(str(u['cases'][1]) for u in c['units']))
    out+='* *Bounds:* %s\n'%c['level_note']
    out+='* *Beyond the tests:* %s\n'%p['why_tests_cant']

    out+='\n'
tail = open(H + '/design/tail.md').read()
rows = []
for b in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % b))
    rows.append('| `%s` | %s | %s |' % (b, m['property'], m['what_it_breaks'].split('. ')[0].rstrip('.')))
out += tail.replace('@SEEDED@', '\n'.join(['| planted change | caught by | effect |', '|---|---|---|'] + rows))
open(H + '/DESIGN.md', 'w').write(out)
