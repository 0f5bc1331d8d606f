import json,collections,sys
c=collections.Counter();ex={}
for l in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/d.jsonl'):
    v=json.loads(l); c[v['kind']]+=1; ex.setdefault(v['kind'],[]).append((v['key'],v['detail']))
n=int(sys.argv[2]) if len(sys.argv)>2 else 6
for k,m in c.most_common():
    print(m,k)
    for x in ex[k][::max(1,len(ex[k])//n)][:n]: print('    ',x[0],'|',x[1][:160].replace('\n',' '))
