#!/bin/bash
# mut.sh ID file 'old' 'new' [--n=..]
rm -rf /tmp/mrepo_$1; cp -a ${SRC:-/repo} /tmp/mrepo_$1
python3 - "/tmp/mrepo_$1/$2" "$3" "$4" <<'P'
import sys
p,o,n=sys.argv[1:4]
s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert s.count(o)>=1, "pattern not found"
if s.count(o)>1: print("note: %d matches, replacing first"%s.count(o))
open(p,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] || exit 3
cd /verif; VSIM_REPO=/tmp/mrepo_$1 /opt/venv/bin/python check.py $1 $5 2>&1 | cut -c1-250 | tail -5
rm -rf /tmp/mrepo_$1
