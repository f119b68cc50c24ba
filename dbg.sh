#!/bin/bash
# developer aid: dbg.sh bin part [extra engine args]: run one part of a harness built by the last check
b=$1; shift; p=$1; shift
ll=$(ls -t /verif/harness/target/sym/x86_64-unknown-linux-gnu/release/deps/$b-*.ll | head -1)
rm -rf /tmp/dbg-$b-$p; /verif/engine/target/release/figsym --ll $ll --out /tmp/dbg-$b-$p --jobs 8 --time 300 --pin part=$p "$@"
python3 - /tmp/dbg-$b-$p <<'P'
import sys,glob,json
t={};inc=[];v=[];r={}
for f in glob.glob(sys.argv[1]+'/part.*.json'):
    d=json.load(open(f))
    for k,x in d.items():
        if isinstance(x,int): t[k]=t.get(k,0)+x
    inc+=d['incomplete'];v+=d['viols']
    for k,x in d['reach'].items(): r[k]=r.get(k,0)+x
print({k:t[k] for k in ('paths','forks','steps','queries','unknown','retried','solver_ns','asserts_sym','asserts_const')},r)
for i in inc[:4]: print('INC',i)
for x in v[:4]: print('VIOL',x['msg'],x['inputs'][:20])
P
rm -rf /tmp/dbg-$b-$p
