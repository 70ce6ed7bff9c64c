#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json
NOTE = {
 'default': "Bounded symbolic model checking of the compiled program's SSA over all inputs within the bounds listed in the evidence; trusts the engine's Go semantics (sampled paths are re-run natively and compared), its intrinsics (reflect, fmt, sync, hash) and the SMT solvers. Schemas are a fixed, broad set; sizes are bounded.",
 'C20': "As the others, on a 64-bit big-endian memory layout; counterexamples are confirmed by concrete re-execution in the engine, since the host is little-endian; sampled paths are compared with the little-endian compiled code.",
 'C22': "Hash function as an uninterpreted injective function with no preimage of the zero hashes (collision freedom assumed).",
 'C26': "As the others; the collector is modelled as one that frees everything not reachable through pointer-typed words at each collection point (calls of the stream or hash function, and after the operation). Registers of active functions count as references whether or not they are used again, so a reference lost only within a function between two collection points can go unnoticed.",
 'C11': "Hash function as an uninterpreted function of its input bytes; counterexamples are replayed with SHA-256.",
}
checks=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)['id']
    checks.append({'property':p,'quick_cmd':f'./run.sh check {p} quick','thorough_cmd':f'./run.sh check {p} thorough',
      'evidence_file':f'evidence/{p}.json','technique':'symbolic execution of the Go SSA of the real code, assertions decided by SMT (z3, cvc5)',
      'level':'model_checking','level_note':NOTE.get(p,NOTE['default'])})
m={'version':1,'setup_cmd':'cd engine && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go vet . && which z3 cvc5','checks':checks,'not_applicable':[],
 'notes':'No hooks in /repo. Every check builds the engine and loads /repo from source.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
