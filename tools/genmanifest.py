#!/usr/bin/env python3
import json,os,glob
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have={os.path.basename(f)[:-4].upper() for f in glob.glob(V+'/harness/c[0-9][0-9].cpp')}
H="explicit-state exploration: every operation sequence up to a depth run on the real code in lockstep with a reference model, compared after each step"
I="bounded exhaustive enumeration of inputs on the real code, each execution compared with an independent reference model"
T={'C05':H,'C06':H,'C07':H,'C08':H,'C12':"explicit-state exploration of the streaming state machine: every well-formed stream and every single-byte corruption within bounds, state checked after each byte",
'C15':H,'C24':H,'C25':H,'C26':H,'C33':H,'C27':"exhaustive enumeration of object life-cycle sequences on the real code with an instrumented allocator",
'C28':"stateless model checking: every interleaving of two threads at shared-memory accesses up to a preemption bound, under a controlled scheduler on the real code"}
N={'C28':'Sequentially consistent interleavings only: weak memory orders are not explored. Switch points are calls out of the library (allocator, error handler, printing, C library calls with static state) and accesses to memory both threads touch; with no such access two schedules are equivalent.'}
checks=[dict(property=p['id'],quick_cmd=f"python3 run.py {p['id']} --tier quick",thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
 evidence_file=f"evidence/{p['id']}.json",technique="model checking: "+T.get(p['id'],I),level="model_checking",
 level_note=N.get(p['id'],"Exhaustive within the bounds printed in the evidence file (operation alphabet, depth, value set); nothing is claimed beyond them. AddressSanitizer build of the working tree, Linux x86-64.")) for p in props if p['id'] in have]
na=[dict(property=p['id'],reason="not built yet") for p in props if p['id'] not in have]
m=dict(version=1,setup_cmd="python3 run.py --setup",hooks=dict(guard="none",enable="no hooks are needed: the checks compile /repo's sources unmodified",source_commits=[]),checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
