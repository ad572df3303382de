#!/usr/bin/env python3-vt
import sys, os, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--property', required=True, nargs='+')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--replay')
ap.add_argument('--only')
a = ap.parse_args()
from vc import frame
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
rc = 0
for p in a.property:
    P = importlib.import_module('props.' + p.lower())
    if a.replay:
        n = frame.Native(**P.NATIVE); n.start()
        if not n.finish(): print(n.log); sys.exit(2)
        r, out = n.run(a.replay.split(), 300); print(out); print('exit', r); n.close(); sys.exit(0 if r == 0 else 1)
    if a.only:
        full = P.contracts
        P.contracts = lambda tier: [c for c in full(tier) if a.only in c.name]
    rc = max(rc, frame.run_property(P, a.tier, seed))
sys.exit(rc)
