#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered references (spec/) and rules (checks/)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import run
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ctx = run.Ctx()
rules = run.load_rules()
NA = {
 'N01': 'Whether a packed value fits its integer range depends on the magnitudes of measured data; no sound static bound on them is in reach.',
 'N02': 'Accuracy is a statement about floating point values of signal processing on measured data; static analysis here treats arithmetic as exact.',
 'N03': 'Memory and time depend on how many bursts see a surface (orbit and data); no static bound is derivable from the source.',
}
checks, na = [], []
for p in props:
    i = p['id']
    ents = [e for e in ctx.entries if i in e.props or any(i in v.split() for v in e.slots.values())]
    rl = rules.get(i, [])
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not ents and not rl:
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    t = []
    if ents:
        t.append('dataflow: value-graph (gated SSA) equivalence of %d functions with a reference' % len(ents))
    for f in rl:
        d = (f.__doc__ or f.__name__.replace('_', ' ')).strip().split('\n')[0]
        if d not in t:
            t.append(d)
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'python3 check.py %s --thorough' % i,
        'technique': 'static analysis: ' + '; '.join(t),
        'level': 'translation_validation',
        'level_note': 'For every input, under the assumptions of DESIGN.md (documented library semantics, exact arithmetic, '
                      'statically resolvable attributes); obligations that the analysis cannot decide are listed in the '
                      'evidence as undecided and raise no alarm.'})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"',
           'checks': checks, 'not_applicable': na,
           'notes': 'Known findings and repaired defects: known_findings.json.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
