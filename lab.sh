python3 -c "
import json,sys;e=json.load(open('evidence/$1.json'))['coverage']
for ee in [e]+[x for x in e.get('further_runs',[])]:
  for k,v in ee['sub_properties'].items():
    print(k, v['evaluations'],v['discarded'],v['distinct_nontrivial'])
    for l in sorted(v['labels'].items()): print('  ',l)
  print(ee['search_seconds'])"
