"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
MISSED={"C18-std-spread":"missed: the choice is merged only for some data",
"C04-doping":"missed: the index comes from a nearest-neighbour search; bounds of such indices are undecided (see C04)"}
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(f)); m=json.load(open(f))
    rows.append("| %s | %s | %s |"%(i,m["what_it_breaks"].replace("|","/").replace("\n"," ")[:160],MISSED.get(i,"caught by "+m["property"])))
s=open('/verif/DESIGN.md').read()
a="<!-- seeds -->"
i=s.index(a)
open('/verif/DESIGN.md','w').write(s[:i]+a+"\n| id | breaks | checks |\n|---|---|---|\n"+"\n".join(rows)+"\n")
