#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the list of claimed properties
import json,re,glob,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
props=[json.loads(l) for l in open('properties.jsonl')]
claimed=set()
for f in glob.glob('contracts/*.vspec'):
    for l in open(f):
        m=re.match(r'\s+props\s+(.*)',l)
        if m: claimed.update(re.findall(r'C\d\d',m.group(1)))
skip=set(open('tools/unclaimed.txt').read().split()) if os.path.exists('tools/unclaimed.txt') else set()
claimed-=skip
reasons=json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
notes=json.load(open('tools/level_notes.json')) if os.path.exists('tools/level_notes.json') else {}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append(dict(property=i,quick_cmd=f'bash /verif/tools/check.sh {i} quick',thorough_cmd=f'bash /verif/tools/check.sh {i} thorough',
          technique='contract-based deductive verification: contracts on the functions of /repo, obligations generated from their SSA form by gocv and discharged by z3 and cvc5 on every run',
          level='proof',level_note=notes.get(i,'every obligation of the functions under contract is discharged for all inputs and iterations; trusted base and inlined or assumed library functions are listed in the evidence')))
    else:
        na.append(dict(property=i,reason=reasons.get(i,'no contract written yet')))
json.dump(dict(version=1,setup_cmd='bash /verif/tools/setup.sh',checks=checks,not_applicable=na),open('MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
