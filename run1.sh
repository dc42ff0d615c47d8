#!/bin/bash
# dev helper: run1.sh harness.cc sims [engine options]
cd /verif; H=$1; S=$2; shift 2
python3 /verif/tools/t1.py $H $S > /tmp/t1.out || { cat /tmp/t1.out; exit 1; }
SO=$(awk '{print $1}' /tmp/t1.out); E=$(ls -dt .cache/engine-*|head -1)
time $E/symex --so $SO --bclist ${SO%.so}.lst --out /tmp/o.json "$@"
python3 - <<'PY'
import json,collections
U=collections.Counter();V=collections.Counter();tot=collections.Counter();ex={};nu={};slow=[]
for l in open('/tmp/o.json'):
    d=json.loads(l)
    if 'crash' in d or 'skipped' in d: print(l.strip())
    if 'paths' in d:
        for k in d:
            if isinstance(d[k],(int,float)): tot[k]+=d[k]
        for k,v in d['undecided'].items(): U[k]+=v; nu.setdefault(k,[]).append(d['name'])
        for v in d['violations']: V[(v['kind'],v['msg'],v['where'])]+=1; ex.setdefault((v['kind'],v['msg'],v['where']),(d['name'],v['inputs']))
        if d['valmsg']: print('VALMISMATCH',d['name'],d['valmsg'][:300])
        slow.append((d['time_s'],d['name'],d['paths'],d['queries']))
print({k:round(v,2) for k,v in tot.items()});
for k,v in U.most_common(30): print('UNDECIDED',v,k,nu[k][:5])
for k,v in V.most_common(200): print('VIOL',v,k,ex[k][0],ex[k][1].replace('\n',';')[:300])
print('slowest',sorted(slow,reverse=True)[:5])
PY
