#!/usr/bin/env python3
"""Compares the harness's reference model with Python's integers:
   target/release/vh --model | python3 tools/crosscheck.py"""
import sys
D="0123456789abcdefghijklmnopqrstuvwxyz"
def rad(v,r):
    s=""
    while v: s=D[v%r]+s; v//=r
    return s or "0"
n=0
for l in sys.stdin:
    f=l.split(); k=f[0]; w=int(f[1]); m=(1<<w)-1
    x=lambda t:int(t.split(":")[-1],16)
    sg=lambda v,w=w:v-(1<<w) if v>>(w-1) else v
    a=x(f[2]); n+=1
    if k=="u":
        want=[-a&m,~a&m,abs(sg(a))&m,bin(a).count("1"),a.bit_length(),(a&-a).bit_length()-1 if a else w,bool(a>>(w-1))]
        got=[x(f[3]),x(f[4]),x(f[5]),int(f[6]),int(f[7]),int(f[8]),f[9]=="true"]
    elif k=="r":
        want=[rad(a,int(f[3]))]; got=[f[4]]
    elif k=="s":
        s=int(f[3]); want=[a<<s&m,a>>s,sg(a)>>s&m]; got=[x(t) for t in f[4:7]]
    elif k=="w":
        t=int(f[3]); want=[a&((1<<t)-1),sg(a)&((1<<t)-1)]; got=[x(f[4]),x(f[5])]
    else:
        b=x(f[3]); got=[x(t) for t in f[4:12]]+f[12:14]
        c=lambda p,q:"Less" if p<q else "Equal" if p==q else "Greater"
        if b:
            q,r=divmod(a,b); sq=abs(sg(a))//abs(sg(b))
            if (sg(a)<0)!=(sg(b)<0): sq=-sq
            d=[q,r,sq&m,(sg(a)-sq*sg(b))&m]
        else: d=[b]*4
        want=[a+b&m,a-b&m,a*b&m]+d+[a^b,c(a,b),c(sg(a),sg(b))]
    if want!=got: print("DIFFERENT",l,want); sys.exit(1)
print("agree:",n)
