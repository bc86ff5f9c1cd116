#!/bin/bash
# Development digest: runs a check and prints one violation per signature.
p=$1; shift
MON_VERBOSE=1 timeout 900 /verif/target/debug/mon $p "$@" > /tmp/$p.log 2>&1; echo "$p rc=$?"
grep "evaluations," /tmp/$p.log
python3 - /tmp/$p.log <<'P'
import sys,re,collections
c=collections.Counter(); first={}
for l in open(sys.argv[1],errors='replace'):
    m=re.match(r'--- \[(.*?)\] (.*)$',l)
    if m:
        c[m[1]]+=1; first.setdefault(m[1],m[2])

by=collections.OrderedDict()
for k,n in c.most_common():
    h=k.rsplit(': ',1)[0]; by.setdefault(h,[0,[],first[k]]); by[h][0]+=n; by[h][1].append(k.rsplit(': ',1)[-1])
for h,(n,r,f) in list(by.items())[:14]: print(n,'['+h[-110:]+']',','.join(r)[:150],'::',f.replace('differs from the reference','')[:420])
P
