#!/bin/bash
# Developer aid: ts.sh HARNESS PROP... -- runs t.sh for several properties, with sizes and times.
h=$1; shift
for p in "$@"; do echo "== $p"; tools/t.sh $h $p 2>&1 | cut -c1-${W:-900} | grep -v "^ *space" | tail -${N:-14}; python3 -c "
import json
d=json.load(open('/tmp/t.json'))
print([(s['name'],s.get('cases'),s.get('states'),s.get('exhausted')) for s in d['spaces']], d['wall_s'])"; done
