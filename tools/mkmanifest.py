import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=sys.argv[1].split(',') if len(sys.argv)>1 else []
na={"C20":"packing and unpacking are pure functions of their input: there is no schedule, clock, fault or interleaving for a simulation to decide"}
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
notes=json.load(open('/verif/tools/notes.json'))
for p in props:
    i=p['id']
    if i in claimed:
        m['checks'].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: seeded search over schedules and fault sequences",
          "level":"exploration","level_note":notes.get(i,notes['*'])})
    else:
        m['not_applicable'].append({"property":i,"reason":na.get(i,"no check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']))
