# v.sh PROP: account of the violation the last quick check found
f=$(grep -o 'replay=.*' /tmp/q.$1 | cut -d= -f2); python3 - $f <<'P' | head -c ${L:-5000}
import json,sys
d=json.load(open(sys.argv[1]))
for l in d['account']:
    if l.startswith('settings') or l.startswith('ctx') : continue
    print(l[:900])
print(d['violation']['detail'][:1500])
P
