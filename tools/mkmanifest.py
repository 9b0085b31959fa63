#!/usr/bin/env python3
"""regenerates MANIFEST.json: every property with a props module is claimed"""
import json, os, importlib, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
TECH={'ord':'symbolic execution of the LLVM IR, SMT (z3 LRA over lemma-instantiated IEEE facts)','mixed':'symbolic execution of the LLVM IR, SMT (z3: LRA order domain, bit-precise FP/BV, reduced IEEE formats, reals)'}
checks=[]; na=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if os.path.exists('%s/props/%s.py'%(V,i.lower())):
        src=open('%s/props/%s.py'%(V,i.lower())).read()
        g={}
        note=None
        for line in src.split('\n'):
            if line.startswith('NOTE='): note=eval(line[5:])
        mixed="'tiny'" in src or "'real'" in src or "'exact'" in src
        checks.append({'property':i,'quick_cmd':'./check %s quick'%i,'thorough_cmd':'./check %s thorough'%i,'technique':TECH['mixed' if mixed else 'ord'],'level':'model_checking','level_note':note or 'Every feasible path of the encoded functions is explored and the negated property is refuted by the solver for all inputs within the bounds printed in the evidence; trusts clang -O0 IR, z3, IEEE-conforming hardware. Counterexamples are reported only when the compiled code reproduces them.'})
    else: na.append({'property':i,'reason':NA.get(i,'no check built yet')})
json.dump({'version':1,'setup_cmd':'true','checks':checks,'not_applicable':na},open(V+'/MANIFEST.json','w'),indent=1)
