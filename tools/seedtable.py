#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=["### Planted bugs and the checks that catch them",""," | bug | property | needs | caught by |".strip(),"|---|---|---|---|"]
caught=json.load(open(R+'/tools/caught.json')) if os.path.exists(R+'/tools/caught.json') else {}
for b in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{b}/meta.json'))
    out.append(f"| {b} | {m['property']} | {m['needs'].replace('|','/')} | {', '.join(caught.get(b,['not run']))} |")
p=R+'/DESIGN.md'; s=open(p).read(); i=s.find("### Planted bugs and the checks")
if i>=0: s=s[:i]
open(p,'w').write(s.rstrip()+"\n\n"+"\n".join(out)+"\n")
