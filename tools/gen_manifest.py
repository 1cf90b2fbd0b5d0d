#!/usr/bin/env python3
import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
import checks
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
m=dict(version=1,setup_cmd="python3 run.py --setup",checks=[],not_applicable=[])
for p in props:
    i=p['id']
    if i in checks.SPEC:
        s=checks.SPEC[i]
        m['checks'].append(dict(property=i,quick_cmd="python3 run.py %s quick"%i,thorough_cmd="python3 run.py %s thorough"%i,
            technique=s.get('technique') or "runtime monitoring: randomised workload under ASan+UBSan with an independent extended-precision oracle",level="exploration",
            level_note=s.get('note') or "Oracle observes every execution of a seeded random/structured workload over the public interface; inputs are sampled, not exhausted."))
    else:
        m['not_applicable'].append(dict(property=i,reason="check not built yet"))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1); open(H+'/MANIFEST.json','a').write("\n")
print(len(m['checks']),'claimed')
