import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']
    print(p,'cases',c['evaluations'],'distinct',c['distinct_nontrivial'],'trivial',c['trivial_cases'],'wall',e['wall_s'],'viol',e['violations'])
    for k,v in sorted(c['oracles'].items()): print('   %-50s %9d  %.3g'%(k,v['evaluations'],v['worst_error_over_bound']))
