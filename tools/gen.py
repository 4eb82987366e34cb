#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the compiled implementation (LLVM IR), SMT verdict (Z3/cvc5) over all inputs in the bounds, native replay of counterexamples'
TRUST = ' Trusts: clang as the front end of the checked code, the executor\'s models of malloc/memcpy/streams/locale, Z3; sampled paths are re-run natively and compared. Holds within the bounds given in the evidence file.'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        st = p['statement']
        assert len(p['title']) <= 80, p['id']
        assert st.count('. ') <= 2, (p['id'], st)
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': st,
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', [])}}) + '\n')
na = {i for i, _ in NOT_APPLICABLE}
man = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup', 'checks': [
    {'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
     'technique': TECH, 'level': 'model_checking', 'level_note': p['note'] + TRUST} for p in PROPS if p['id'] not in na],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE],
    'notes': 'No hooks: the checks compile /repo unchanged. Bounds and exclusions are written at the head of each harness and copied to the evidence.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
