#!/bin/bash
# triage helper: tri.sh WL SEEDS TIME  -> summary of violation classes over all seeds
cd /verif && python3 build.py || exit 3
mkdir -p /tmp/tri; rm -f /tmp/tri/$1.*
for s in $(seq 1 $2); do (${SIM_BUILD:-./build}/simrun batch --prop $1 --seed $((s*7+${4:-0})) --time $3 --out /tmp/tri/$1.o$s --viol /tmp/tri/$1.v$s --keep-going > /tmp/tri/$1.log$s 2>&1; echo "RC $?" >> /tmp/tri/$1.log$s) & done; wait
grep -h '^RC' /tmp/tri/$1.log* | sort | uniq -c; grep -h "^error\|differ" /tmp/tri/$1.log* | head -3
python3 - $1 <<'P'
import glob,re,sys,json
seen={}
runs=0
for f in glob.glob('/tmp/tri/%s.o*'%sys.argv[1]):
    try: d=json.load(open(f)); runs+=d['runs']; 
    except Exception as e: print(f,e); continue
    if d.get('error'): print('ERROR',d['error'])
for f in sorted(glob.glob('/tmp/tri/%s.log*'%sys.argv[1])):
    L=open(f).read().split('\n')
    for i,l in enumerate(L):
        m=re.match(r'NEW\(run (\d+), (\w+)\) (.*)',l)
        if m:
            k=m.group(3)
            j=i
            while j<len(L) and not L[j].startswith('   ->'): j+=1
            seen.setdefault(k,[0,L[i+1][:330],L[j][5:] if j<len(L) else ''])[0]+=1
print('runs',runs)
for k,v in seen.items(): print('*',k,'\n   ',v[1].strip(),'\n   ',v[2])
P
