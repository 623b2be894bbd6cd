#!/bin/bash
# survey.sh PROP N [SEED0] [extra args]: classes of violations over N seeds (development aid)
D=/verif/target/debug/dst; P=$1; N=$2; S=${3:-1000}; shift 3
T=$(mktemp -d /tmp/survey.XXXX)
for j in 0 1 2 3 4 5 6 7; do
  timeout 800 $D one --prop $P --n $((N/8)) --seed $((S + j*100000)) "$@" > $T/$j 2>&1 &
done; wait
cat $T/* | python3 -c "
import sys,re,collections
c=collections.OrderedDict(); tot=0
for l in sys.stdin:
    m=re.match(r'(\d+) [0-9a-f]+ (\[.*)',l)
    if not m: continue
    tot+=1
    k=re.search(r'class: \"([^\"]*)\", msg: \"(.{0,260})',m.group(2))
    if k:
        key=k.group(1)
        c.setdefault(key,[]).append((m.group(1),k.group(2)))
print('runs',tot)
for k,v in c.items():
    print(k,len(v))
    for s in v[:4]: print('    ',s[0],s[1])
"
rm -rf $T
