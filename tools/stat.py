import json,sys
for p in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{p}.json'))
    for f in e['coverage']['functions_under_contract']: print(f['contract'],f['status'],'wall',f['wall_s'],'solver',f['solver_s'],'paths',f['paths'],'obl',f['obligations'],[ (l['header'],l['candidates'],l['inductive'],l['backedges']) for l in f['loops'] or []], f['why'] or '')
