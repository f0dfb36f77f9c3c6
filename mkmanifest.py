#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIM: property -> (technique, level note); everything else is not_applicable with a reason."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
K='contracts and loop invariants on the generated C++ kernels, verification conditions from the clang AST discharged by z3/cvc5'
COMMON=' Obligations are generated from the current source on every run; the contract is also evaluated on the real code (bounded, never counted as proved) to replay counter-models and stand in for what is out of reach.'
CLAIM={}
exec(open(os.path.join(here,'claims.py')).read())
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
M=dict(version=1,setup_cmd='./setup.sh',checks=[],not_applicable=[])
for p in props:
    if p in CLAIM:
        t,n=CLAIM[p]
        M['checks'].append(dict(property=p,quick_cmd=f'VERIF_TIER=quick ./check.py {p}',thorough_cmd=f'VERIF_TIER=thorough ./check.py {p}',
            evidence_file=f'evidence/{p}.json',technique=t,level='proof',level_note=n+COMMON))
    else: M['not_applicable'].append(dict(property=p,reason=NA.get(p,'no contract of this property is discharged yet')))
json.dump(M,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
print(len(M['checks']),'claimed')
