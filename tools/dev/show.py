import json,sys
r=json.load(open('/verif/evidence/replays/%s.json'%sys.argv[1]))
c=int(sys.argv[2]) if len(sys.argv)>2 else None
n=int(sys.argv[3]) if len(sys.argv)>3 else 40
t=r['trace'][:r['matched_events']+1]
print(json.dumps(t[0])[:600]); print(r['history'],r['mode'])
if c is not None: t=[e for e in t if e.get('c') in (c,None) and e['e'] not in('Reset',)]
for e in t[-n:]: print(json.dumps(e)[:300])
