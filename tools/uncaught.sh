#!/bin/sh
# runs catches.py on every planted bug it has not been run on, or that was not caught by its own check
cd "$(dirname "$0")/.."
python3 tools/catches.py $(python3 - <<'P'
import json,os
r=json.load(open('build/catches.json')) if os.path.exists('build/catches.json') else {}
for i in sorted(os.listdir('seeded')):
    p=json.load(open('seeded/%s/meta.json'%i))['property']
    if r.get(i,{}).get(p)!=1: print(i)
P
)
