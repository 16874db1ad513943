#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from meta.py and props.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from meta import META
from props import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for m in META:
        assert len(m['title']) <= 80, m['id']
        d = dict(id=m['id'], title=m['title'], statement=m['statement'], quantifier=dict(over=m['over'], text=m['qtext']),
                 why_tests_cant=m['why'], anchors=dict(files=m['files'], mechanism=[dict(name=a, where=b) for a, b in m['mech']],
                                                       observe_at=m['observe'] or ['return values and output arguments of the public functions'], hook_needed=None))
        if m['state']:
            d['anchors']['state'] = m['state']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for m in META:
    i = m['id']
    if i in PROPS:
        p = PROPS[i]
        b = [h for h in p['harnesses'] if h.get('bounded')]
        note = m['note'] or ('Every obligation generated from the real functions is discharged for all real-valued inputs%s. '
                             'double is treated as the reals (no rounding, overflow, NaN); the verifier, clang, z3/cvc5 and the library contracts are trusted; termination is not proved.'
                             % ('' if not b else '; contracts marked BOUNDED in the evidence hold for all values but only for the stated container sizes, and are not counted as proved'))
        c = dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                 technique='contract-based deductive verification (own VC generator over the LLVM IR of the real functions, z3/cvc5 and a rational normal form)',
                 level=p['level'], level_note=note)
        if p['level'] == 'proof':
            c['theorems'] = [h['entry'] for h in p['harnesses'] if not h.get('bounded')]
        checks.append(c)
    else:
        na.append(dict(property=i, reason=m['na'] or 'contracts not built yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q lvc props.py meta.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md. properties.jsonl and this file are generated by tools/gen.py.'), open(V + '/MANIFEST.json', 'w'), indent=1)
