#!/bin/bash
# dbg.sh PID ENTRY : run one entry, print errors with inputs
cd /verif; python3 - "$@" <<'PY'
import sys; sys.path.insert(0,'/verif'); import vf, json, os, subprocess
h,e=sys.argv[1],sys.argv[2]; extra=sys.argv[3:]
eng=vf.build_engine(); lib=vf.build_lib(); w='/verif/.build/dbg'; os.makedirs(w,exist_ok=True)
tier='thorough' if '--thorough' in extra else 'quick'; extra=[x for x in extra if x!='--thorough']
m,err=vf.build_harness(lib,f'/verif/harness/{h}.cpp',tier,w)
if err: print(err); sys.exit(1)
mt=[] if '--max-time' in extra else ['--max-time','120']
r=subprocess.run([eng,'--entry',e,'--out',w+'/o.json','--tmp',w,'--mem','6000']+mt+extra+[m],capture_output=True,text=True)
print(r.stderr[-6000:] if '-v' in extra else '\n'.join(l for l in r.stderr.split('\n') if 'input' not in l)[-1500:])
j=json.load(open(w+'/o.json'))
for x in j['errors']:
    print('ERR',x['kind'],x['msg'],x['loc'],x['fn']); print('   ',' '.join(f'{n}={v}' for n,_,v in x['inputs'] if v)); vf.write_inputs(w+'/in.txt',x['inputs'])
s=j['solver']; print(e,{k:v for k,v in j.items() if k in('paths','killed','instr','merges','asserts','reach','incomplete','wall')},{k:v for k,v in s.items() if v and k in('queries','unknown','own','cuts','z3_calls','portfolio','disagree','time')})
PY
