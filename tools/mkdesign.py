#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append((d['property'],os.path.basename(os.path.dirname(f)),d['what_it_breaks'],d['needs']))
rows.sort()
t='| caught by | planted bug | what it breaks | needs |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%tuple(x.replace('|','\\|') for x in r) for r in rows)
p=V+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- seeds -->\n.*?<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+t+'<!-- /seeds -->',s,flags=re.S)
open(p,'w').write(s)
