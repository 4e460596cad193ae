#!/usr/bin/env python3
"""Writes MANIFEST.json from vcg/props.py (claimed properties) and the list below (not claimed)."""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vcg'))
import claims
allp = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks = []
for p in allp:
    if p in claims.CLAIMED:
        checks.append(dict(property=p, quick_cmd='python3-vt vcg/check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3-vt vcg/check.py %s --thorough' % p,
                           technique='contract-based deductive verification of the real C++ source (own VC generator over the clang AST, z3/cvc5)',
                           level='proof', level_note=claims.CLAIMED[p]))
na = [dict(property=p, reason=claims.NA.get(p, 'not built yet')) for p in allp if p not in claims.CLAIMED]
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++ --version >/dev/null && cvc5 --version >/dev/null", checks=checks, not_applicable=na,
         notes='See DESIGN.md. Every check parses /repo\'s current sources with clang, generates the obligations and discharges them with z3/cvc5.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
