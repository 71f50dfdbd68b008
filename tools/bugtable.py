#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["<!-- bugs -->","| planted bug | property (its check catches it, unless noted) | breaks |","|---|---|---|"]
for f in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']}{m.get('note','')} | {m['what_it_breaks']} |")
rows.append("<!-- /bugs -->")
p=root+"/DESIGN.md"; s=open(p).read(); t="\n".join(rows)
s=s.replace("BUGTABLE",t) if "BUGTABLE" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->",lambda _:t,s,flags=re.S)
open(p,"w").write(s)
