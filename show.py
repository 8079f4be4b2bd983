import json,sys
d=json.load(open(sys.argv[1]))
print({k:d[k] for k in d if k not in('cands','traces','fns','jobs','labels')})
for k,v in d['jobs'].items(): print(' job',k,{a:b for a,b in v.items() if b})
for k,v in d['labels'].items(): print(' label',k,{a:b for a,b in v.items() if b})
for c in d['cands'][:int(sys.argv[2]) if len(sys.argv)>2 else 4]: print(c)
print(len(d['traces']),'traces',len(d['fns']),'fns')
