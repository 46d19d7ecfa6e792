#!/bin/bash
# uncovered.sh [SEEDS-ENV]: which lines of /repo no quick check reaches (a build of its own, about 15 min)
cd /verif || exit 2
export TOPPO_SIM_PCS=1 TOPPO_SIM_TARGET=/tmp/uncovered TOPPO_SIM_EDGES=/tmp/uncovered.edges
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do ./check.sh check $p | tail -1 | cut -c1-120; done
python3 - <<'P'
import glob,subprocess,collections
fs=sorted(glob.glob('/tmp/uncovered.edges.C*'))
pcs=[];hit=[]
for k,f in enumerate(fs):
    for i,l in enumerate(open(f)):
        a,h=l.split()
        if k==0: pcs.append(a);hit.append(0)
        hit[i]|=int(h)
out=subprocess.run(['llvm-symbolizer','--obj=/tmp/uncovered/debug/toppo-sim','--output-style=GNU','--no-inlines','-f'],input='\n'.join('0x'+p for p in pcs),text=True,capture_output=True).stdout.split('\n')
cov=collections.defaultdict(int);fn={}
for i in range(len(pcs)):
    f,l=out[2*i],out[2*i+1]
    if '/repo/' not in l: continue
    l=l.split(' ')[0]; cov[l]|=hit[i]; fn[l]=f
bad=collections.defaultdict(list)
for l,h in cov.items():
    if not h:
        p,n=l.rsplit(':',1)
        if n.isdigit(): bad[p].append((int(n),fn[l]))
for p in sorted(bad):
    src=open(p).read().split('\n')
    for n,f in sorted(bad[p]): print(f"{p}:{n}: {src[n-1].strip()[:110]}")
P
