# run judge on a replay and print final state of the spec's con
import json,sys,os
sys.path.insert(0,'/verif')
import vlib
r=json.load(open('/verif/evidence/replays/%s.json'%sys.argv[1]))
cids=set()
n=r['matched_events']
last=r['trace'][n]
print(last)
# summarise each connection's events
per={}
for e in r['trace'][:n]:
    if 'c' in e and e['c']: per.setdefault(e['c'],[]).append(e['e']+(':'+str(e.get('ok',e.get('how',e.get('res',e.get('code',e.get('n','')))))) if 1 else ''))
for c in sorted(per):
    if 'SockClose:' in per[c] : continue
    print(c,' '.join(per[c])[-600:])
pend=[e for e in r['trace'][:n] if e['e'] in('Msg','OnMessage','AddTimer','OnTimer','DelTimer')]
ms={}
for e in pend:
    if e['e']=='Msg': ms[('m',e['id'])]=e
    if e['e']=='OnMessage': ms.pop(('m',e['id']),0)
    if e['e']=='AddTimer': ms[('t',e['id'])]=e
    if e['e'] in('OnTimer','DelTimer'): ms.pop(('t',e['id']),0)
print(ms)
for c in sorted(per):
    if 'SockClose:' in per[c] and not any(x.startswith(('OnClose','OnError','Close')) for x in per[c]): print('closed unexplained',c,per[c])
