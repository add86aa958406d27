#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks the harness has (run by hand)."""
import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=subprocess.run(['/verif/.build/harness','-list'],capture_output=True,text=True,check=True).stdout.split()
notes=json.load(open('/verif/tools/levelnotes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        t,n=notes.get(i,["property-based testing (rapid)","Random search over generated cases against an independent oracle; evidence, not proof."])
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',technique=t,level='exploration',level_note=n))
    else:
        na.append(dict(property=i,reason='No check built yet.'))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='All checks are one Go harness (/verif/harness) compiled against the working tree of /repo. No hooks are needed.'),open('/verif/MANIFEST.json','w'),indent=1)
