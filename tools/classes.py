import json,sys
for k in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%k));c=d['coverage']
    print(k,d['wall_s'],c['evaluations'],c['distinct_nontrivial'])
    for n in sorted(c['classes'])[:60]: print('   ',c['classes'][n],n)
