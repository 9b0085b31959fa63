from spec import *
from opslist import *
BOUNDS='all bit patterns of every argument, well formed or not, NaN and infinities included (pow: the listed exponents); float, double, long double; default, mode-switching and elementary-function policies; the mode on entry and the mode of the second call each range over all four; normal returns and exceptions; cos and sin: argument reduction by recursion up to the depth finite arguments need (1)'
ASSUMPTIONS=['the base functions (libm) leave the rounding mode alone and are deterministic functions of argument and rounding mode']
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P,L in(('def',ARITH+PRED+CONV),('sb',ARITH+PRED+CONV),('tos',TRANS+TRIG),('tsb',TRANS),('tss',TRIG if tier=='thorough' or T=='double' else [])):
            for n in L:
                ins=[('xl',k),('xu',k),('yl',k),('yu',k),('s',k),('t',k),('w',{'cvf':'float','cvd':'double','cvl':'x86_fp80','cvas':'x86_fp80'}.get(n,k)),('n','i32'),('m','i32')]
                outs=[('lo',k),('hi',k),('lo2',k),('hi2',k),('m1','i32'),('m2','i32'),('f','i32'),('f2','i32')]
                def pre(D,i,k=k,n=n):
                    c=Or([i.m==m for m in MODES])
                    return And(c,S(D,k).finwf(i.xl,i.xu)) if n in TRIG else c
                def post(D,i,o,k=k):
                    s=S(D,k)
                    return ret(o,lambda:And(o.m1==i.entry,o.m2==i.m,o.mode==i.m,o.f==o.f2,s.same(o.lo,o.hi,o.lo2,o.hi2)))
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),ins,outs,pre,post,domain='cong',max_paths=40000,budget=200,opts={'recbound':2 if n=='sin' else 1,'cut':True} if n in TRIG else None,consts={'m':MODES},vectors=6,weight=50 if n in TRIG else 20 if n in('mul','div','fmod') else 1))
    return ts
