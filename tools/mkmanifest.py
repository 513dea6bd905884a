#!/usr/bin/env python3
# Regenerates MANIFEST.json: one check per property that has contracts.
import json,glob,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C25":"liveness under an arbitrary scheduler: 'eventually terminates' is not a postcondition or an invariant, and the verifier's contracts are partial-correctness contracts per iteration of a task; nothing in reach proves termination of tasks blocked on channels.",
    "C26":"real-time behaviour (every 3 s of wall-clock time, frames per second) depends on the Go scheduler, timers and clock; a contract on the code can only fix the durations it asks for (covered by C18, C23), not when they happen."}
LN={
'packet':'Unbounded: all field values / all byte slices of all lengths; loops are fully unrolled only where their trip count is a proved constant.',
'code':'Unbounded: all register and code values.',
'artnet':'Unbounded in states, inputs and iterations.'}
checks=[]
for p in props:
    i=p['id']
    fs=[f for f in glob.glob('/verif/contracts/*/*.go') if i in f.split('/')[-1]]
    src=''.join(open(f).read() for f in fs)
    if not re.search(r'^func '+i+r'_',src,re.M):
        if i not in NA: NA[i]='contracts not written yet'
        continue
    n=len(re.findall(r'^func '+i+r'_',src,re.M))
    checks.append({"property":i,"quick_cmd":"/verif/bin/check "+i,"thorough_cmd":"VERIF_TIER=thorough /verif/bin/check "+i,
      "technique":"contract-based deductive verification of the real Go source (own VC generator gover over go/ssa, SMT back ends z3/cvc5)",
      "level":"proof",
      "level_note":"%d contracts; every obligation generated from /repo's current source must be discharged. %s Trusted: the gover VC generator, go/ssa, the SMT solvers, the models of library functions and the assumptions listed in the evidence file."%(n,LN[fs[0].split('/')[-2]]) })
m={"version":1,"setup_cmd":"/verif/bin/build","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())],
 "notes":"No hooks in /repo: contracts are compiled into the packages through an overlay. All /repo commits are fix: commits (see known-findings.txt)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
