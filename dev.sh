#!/bin/bash
# dev.sh ID entry params [flags]: rebuild the IR of one property and run one entry
cd /verif; P=$1; F=$2; A=$3; shift 3
[ -n "$NB" ] || python3 -c "
import check,props
import os
os.makedirs(check.W,exist_ok=True)
check.build_engine()
check.build_ir('$P',sorted({e['fn'] for e in props.P['$P']['entries']}))" || exit 1
./engine/target/release/symx --ir work/$P.ll --entry $F ${A:+--params $A} --scratch /verif/work --out /tmp/w/$F.json --time-limit ${TL:-120} "$@"
python3 - <<P
import json
j=json.load(open('/tmp/w/$F.json'))
f=j.pop('functions'); c=j.pop('cases'); a=j.pop('asserts')
for k,v in j.items(): print(k,v, end='; ')
print()
for k,v in a.items(): print('  ',k,v)
for x in c:
    if x['kind']=='violation': print(x['label']); print(x['text'])
P
