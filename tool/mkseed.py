"""mkseed.py FILE: python file defining SEEDS = [(id, prop, [(file, old, new, count?)], needs, breaks, demo)]"""
import sys,os,subprocess
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
for sid,prop,edits,needs,breaks,demo in ns["SEEDS"]:
    if only and sid not in only: continue
    print("=====",sid,flush=True)
    assert not subprocess.run(["git","-C","/repo","status","--short"],stdout=subprocess.PIPE,text=True).stdout.strip()
    d="/verif/seeded/"+sid; os.makedirs(d,exist_ok=True)
    files=demo if isinstance(demo,dict) else {"demo.sh":demo}
    for n,t in files.items(): open(d+"/"+n,"w").write(t)
    ok=True
    for f,a,b in edits:
        s=open("/repo/"+f,newline='').read(); crlf='\r\n' in s
        s=s.replace('\r\n','\n')
        if a not in s: print("NOT FOUND",f,a); ok=False; break
        s=s.replace(a,b,1)
        open("/repo/"+f,"w",newline='').write(s.replace('\n','\r\n') if crlf else s)
    if not ok:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."]); continue
    subprocess.run(["bash","/verif/tool/seed.sh",sid,prop,needs,breaks])
