#!/usr/bin/env python3-vt
"""Self test of java/Num.java against mpmath (random values). Not a property check."""
import random, subprocess, sys, mpmath as mp
mp.mp.dps = 70
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 1)
F=dict(exp=mp.exp,log=mp.log,sqrt=mp.sqrt,sin=mp.sin,cos=mp.cos,tan=mp.tan,sinh=mp.sinh,cosh=mp.cosh,tanh=mp.tanh,
 asin=mp.asin,acos=mp.acos,atan=mp.atan,asinh=mp.asinh,acosh=mp.acosh,atanh=mp.atanh,abs=abs)
def rq(): return (random.randint(-60,60), random.choice([1,2,3,7,10,11,1000]))
def val(q): return mp.mpf(q[0])/q[1]
cases=[];exp=[]
for f in F:
    for k in range(80):
        a=rq(); b=rq() if k%2 else (0,1)
        z=mp.mpc(val(a),val(b)) if b[0] else val(a)
        try: w=F[f](z)
        except Exception: continue
        if mp.isinf(w) or mp.isnan(w): continue
        cases.append(f"{f} {a[0]}/{a[1]}"+(f"|{b[0]}/{b[1]}" if b[0] else "")); exp.append(w)
for k in range(200):
    a,b=rq(),rq(); c,d=(rq(),rq()) if k%3==0 else ((0,1),(0,1))
    A=mp.mpc(val(a),val(c)); B=mp.mpc(val(b),val(d))
    if A==0: continue
    cases.append(f"pow {a[0]}/{a[1]}|{c[0]}/{c[1]} {b[0]}/{b[1]}|{d[0]}/{d[1]}"); exp.append(mp.exp(B*mp.log(A)))
    if a[0] or b[0]:
        cases.append(f"atan2 {a[0]}/{a[1]} {b[0]}/{b[1]}"); exp.append(mp.atan2(val(a),val(b)))
out=subprocess.run(["java","-cp","/opt/veriftools/tla/tla2tools.jar:/verif/build/java","Num"],input="\n".join(cases),capture_output=True,text=True)
if out.returncode: print(out.stderr); sys.exit(2)
bad=0
def p(s):
    s=s.lstrip('~'); a=s.split('|')
    g=lambda t: mp.mpf(t.split('/')[0])/mp.mpf(t.split('/')[1]) if '/' in t else mp.mpf(t)
    return mp.mpc(g(a[0]), g(a[1]) if len(a)>1 else 0)
for c,w,o in zip(cases,exp,out.stdout.split('\n')):
    if o=='U': print('U',c,w); bad+=1; continue
    g=p(o)
    if abs(g-w)>mp.mpf(10)**-45*max(1,abs(w)): bad+=1; print(c,o,mp.nstr(w,20))
print(len(cases),"cases",bad,"bad")
