#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={
 'C13':'bounded: matrix sizes listed in the evidence; every scheduling decision of the model scheduler is a symbolic boolean; large shapes bound the number of schedules',
 'C18':'the tag byte over all values, by path enumeration over its symbolic bits and by Kani/CBMC on the compiled codec; proof types for the listed shapes',
 'C27':'bounded shapes, hiding key; three recorded findings (the stored randomness is serialized) are reported as KNOWN-FINDING, any other leak is a violation',
}
default='bounded: equation and list sizes listed in the evidence; within them every scalar, group element, key parameter and random draw is symbolic and every branch alternative is decided by the solver'
checks=[]
for p in props:
    i=p['id']
    checks.append({
        'property':i,
        'quick_cmd':f'./check.sh {i} quick',
        'thorough_cmd':f'./check.sh {i} thorough',
        'technique':'symbolic execution of the real generic library code (instantiated with a symbolic pairing engine), path conditions and obligations decided by an SMT solver (z3, QF_FF); counterexamples replayed on BLS12-381' + ('; Kani/CBMC for the tag codec' if i=='C18' else ''),
        'level':'model_checking',
        'level_note':notes.get(i,default),
    })
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
