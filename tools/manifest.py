import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=json.load(open('/verif/tools/claims.json'))
NA="pure function of its input: no schedule, clock, fault, crash point or history takes part in it, so deterministic simulation with fault injection has nothing to decide here"
m={"version":1,"setup_cmd":"bash bin/setup","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":f"bash bin/check {i}","thorough_cmd":f"bash bin/check {i} --thorough","technique":claimed[i][0],"level":"exploration","level_note":claimed[i][1]})
    elif i>="C20":
        m["not_applicable"].append({"property":i,"reason":NA})
    else:
        m["not_applicable"].append({"property":i,"reason":"check under construction; not claimed yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
