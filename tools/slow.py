import json, sys
d = json.load(open(f'/verif/evidence/{sys.argv[1]}.json')); F = d['coverage']['functions_under_contract']
for f in sorted(F, key=lambda f: -f['wall_s'])[:12]: print(f['wall_s'], f['solver_s'], f['paths'], f['obligations'], f['contract'])
