#!/bin/bash

export VERIF_REPO=${VERIF_REPO:-/repo}
# triage.sh scenario [runs] [time]: every violation signature with a count and a sample seed
S=${SIMRUN:-$(python3 /verif/build.py)}
cd /verif/build; $S explore --scenarios $1 --seed ${SEED:-1} --runs ${2:-20000} --time ${3:-30} --jobs 8 --determinism ${DET:-500} --keep-going 1 --min-time 0 --out /tmp/tri.json --replay /tmp/tri.replay > /tmp/tri.txt
grep '^V ' /tmp/tri.txt | sed -E 's/seed [0-9]+ //; s/[0-9]+/N/g' | cut -c1-230 | sort | uniq -c | sort -rn | head -${TOP:-15}
grep '^V ' /tmp/tri.txt | awk '{k=$5; for(i=6;i<=9;i++)k=k" "$i; if(!(k in s)){s[k]=$4; print "  sample",$4,k}}' | head -12
python3 - <<'P'
import json
d=json.load(open('/tmp/tri.json'))
print({k:d[k] for k in ('runs','ok','wall_s','distinct_interleavings','max_steps','max_threads')}, d.get('error'))
print({k:v[1] for k,v in d['faults'].items()}); print({k:v[1] for k,v in d['probes'].items()})
P
