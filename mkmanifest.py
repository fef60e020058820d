#!/usr/bin/env python3
# Writes MANIFEST.json from the property list and the table in tool/props.go.
import json,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open('properties.jsonl')]
src=open('tool/props.go').read()
claimed=set(re.findall(r'\{id: "([A-Z]\d\d)"',src))
NA={
 'N01':"Equality after encode and decode relates two whole recursions over unbounded values and two independent grammars; no sound static argument in reach relates them. The two halves are decided separately against the wire form (A01-A05).",
 'N02':"Needs a relation between a text scanner and a text writer over all strings; the component writers (S08) and header parsing (S07) are decided instead.",
 'N03':"Quantifies over the accumulated drift of a whole session's timestamps, a runtime quantity; the per-step bound is decided in T08.",
}
NOTE={}
TECH={'X01':'static analysis: interprocedural reference-flow and effect analysis of the SSA form'}
note="Sound for the model stated in DESIGN.md: an abstract interpretation of the Go SSA form covering every input and history of the listed entries; an obligation that cannot be discharged is reported. Trusts the analyser, its models of the language and of library functions, and the assumptions in the evidence file."
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'./check.sh '+i,'technique':TECH.get(i,'static analysis: abstract interpretation of the SSA form against a specification interpreted alongside'),'level':'other','level_note':NOTE.get(i,note)})
    else:
        na.append({'property':i,'reason':NA.get(i,"No check built yet.")})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na},open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
