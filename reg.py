#!/usr/bin/env python3
# reg.py: add or replace lines of checks.py PROPS: reg.py CID 'dict expression'
import sys,re
p='/verif/checks.py'; L=open(p).read().rstrip('\n').split('\n'); assert L[-1]=='}'
pid,expr=sys.argv[1:3]; L=[l for l in L[:-1] if not l.startswith(f" '{pid}':")]
hdr=[l for l in L if not l.startswith(" '")]; ents=[l for l in L if l.startswith(" '")]+[f" '{pid}': {expr},"]
ents.sort(); open(p,'w').write('\n'.join(hdr+ents+['}'])+'\n')
