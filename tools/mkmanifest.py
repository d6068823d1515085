#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a property is claimed when its harness module and its bounds exist.
import json,os,re
V='/verif/'
P=[json.loads(l) for l in open(V+'properties.jsonl')]
b=open(V+'bounds.md').read()
notes={m.group(1):' '.join(x[2:] for x in m.group(2).strip().split('\n') if x.startswith('- ')) for m in re.finditer(r'## (C\d\d)\n((?:(?!## ).*\n?)*)',b)}
hooks=json.load(open(V+'tools/hooks.json')) if os.path.exists(V+'tools/hooks.json') else []
checks=[];na=[]
for p in P:
    i=p['id']
    if os.path.exists(V+'harness/h/src/%s.rs'%i.lower()) and i in notes:
        checks.append(dict(property=i,quick_cmd='./run.sh %s quick'%i,thorough_cmd='./run.sh %s thorough'%i,
          technique='symbolic execution of the LLVM IR of the current tree + SMT (z3), counterexamples replayed natively',
          level='model_checking',level_note=notes[i]))
    else:
        na.append(dict(property=i,reason='no check built yet'))
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='cfg(vx_hooks)',enable='run.sh builds the harness with RUSTFLAGS="--cfg vx_hooks"',source_commits=hooks),checks=checks,not_applicable=na)
json.dump(m,open(V+'MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[x['property'] for x in na])
