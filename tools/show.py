import json,sys
d=json.load(open(sys.argv[1]+'/result.json'))
print({k:d[k] for k in('states','transitions','validated')}, d['counts'])
n=int(sys.argv[2]) if len(sys.argv)>2 else 2
seen={}
for v in d['violations']:
    seen[v['key']]=seen.get(v['key'],0)+1
    if seen[v['key']]>n: continue
    print('---',v['key'],v['count']); print(v['case']['name'],'|',v['case']['input'][:300],'|',v['case']['opts'],'|',v['case']['mode'], '|', v['case']['extra']); print(v['msg'][:900])
