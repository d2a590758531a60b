"""Write spec/products.json from the tree (run once; the table was then reviewed against the product description)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa import run
from sa.terms import show
from checks import products as P
ctx = run.Ctx()
out = {}
for w in P.WRITERS:
    dims, vs = P.declared(ctx, w)
    out[w] = {'dimensions': {k: show(v, 6) for k, v in dims.items()},
              'variables': {k: {x: v[x] for x in ('dtype', 'dims', 'attrs')} for k, v in vs.items()}}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'products.json'), 'w'), indent=1)
