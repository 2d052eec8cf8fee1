import json,glob,sys,collections
c=collections.Counter(); ex={}
for f in glob.glob('/verif/replay/%s_*.json'%sys.argv[1]):
    d=json.load(open(f)); e=d['ev'][d['event']-1] if d['event'] else {}
    k=(e.get('op'),e.get('err'),d['clauses'][:150]); c[k]+=1; ex[k]=f
for k,v in c.most_common(): print(v,k,ex[k])
