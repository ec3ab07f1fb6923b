#!/usr/bin/env python3
"""Rewrites the 'fixed' section of KNOWN_FINDINGS.md from the fix: commits of /repo."""
import subprocess,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP=dict(l.split("\t")[:2] for l in open(os.path.join(ROOT,"tools/fixmap.tsv")).read().splitlines() if l.strip())
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=[];miss=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    if s not in MAP: miss.append(s); continue
    out.append("fixed: property=%s %s %s"%(MAP[s],h,s))
p=os.path.join(ROOT,"KNOWN_FINDINGS.md")
t=open(p).read() if os.path.exists(p) else "# Known findings\n\n## Not repaired\n\n(none)\n\n## Repaired\n"
head=t.split("## Repaired\n")[0]
open(p,"w").write(head+"## Repaired\n\nEach line: the property the defect broke, the commit in /repo, what the commit puts right.\n\n"+"\n".join(out)+"\n")
print(len(out),"fixed;","unmapped:",miss)
