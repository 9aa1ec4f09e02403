#!/bin/bash
# Developer aid: t.sh HARNESS[:fast] PROP [args] -- builds, runs and lists the violations compactly.
h=$1; p=$2; shift 2
cd /verif
b=$(python3 tools/build.py $h 2>/tmp/build.err | cut -d' ' -f2)
[ -z "$b" ] && { grep -m8 "error" /tmp/build.err || tail -5 /tmp/build.err; exit 2; }
export VERIF_CLI=${VERIF_CLI}
ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 $b --property $p --out /tmp/t.json "$@" && python3 -c "
import json
d=json.load(open('/tmp/t.json'))
for v in d['violations'][:25]: print('*',v['space'],v['key'],v['reproduced'],v['choices'][:60],'\n   ',v['msg'][:int('${MSG:-500}')])"
