#!/usr/bin/env python3
# fixed.py PID 'commit-subject substring' 'what failed': record a repaired defect
import sys,subprocess,json
p='/verif/known_findings.json'; s=open(p).read().rstrip(); pid,sub,what=sys.argv[1:4]
h=[l.split()[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).split('\n') if sub in l]; assert len(h)==1,h
assert s.endswith('}'); s=s[:-1].rstrip()[:-1].rstrip()+f',\n  "fixed: property={pid} {h[0]} {what}"\n ]\n}}\n'; json.loads(s); open(p,'w').write(s)
