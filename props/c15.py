from spec import *
from opslist import *
BOUNDS='all bit patterns of every argument, well formed or not, NaN and infinities included (pow: the listed exponents); float, double, long double; keep-upward and mode-switching policies; all four entry rounding modes; under one rounding object: a primitive rounding down, the operation, an addition and a product, a primitive rounding up, the operation again, an addition and a product; cos and sin: argument reduction by recursion up to the depth finite arguments need (1)'
ASSUMPTIONS=['the base functions (libm) leave the rounding mode alone and are deterministic functions of argument and rounding mode']
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P,L in(('def',ARITH+PRED+CONV),('sb',ARITH+PRED+CONV),('tos',TRANS+TRIG),('tsb',TRANS),('tss',TRIG if tier=='thorough' or T=='double' else [])):
            for n in L:
                ins=[('xl',k),('xu',k),('yl',k),('yu',k),('s',k),('t',k),('w',{'cvf':'float','cvd':'double','cvl':'x86_fp80','cvas':'x86_fp80'}.get(n,k)),('n','i32'),('p',k),('q',k)]
                nm=['l0','u0','l1','u1','l2','u2','al','au','ml','mu','d','e','f0','f1','f2','al1','au1','ml1','mu1','al2','au2','ml2','mu2','md']
                outs=[(x,'i32' if x in('f0','f1','f2','md') else k) for x in nm]
                # p*q has constant signs: the probes need no case distinction of their own
                def pre(D,i,k=k,n=n):
                    s=S(D,k); c=And(s.fin(i.p),s.fin(i.q),s.pos(i.p),s.pos(i.q))
                    return And(c,s.finwf(i.xl,i.xu)) if n in TRIG else c
                def post(D,i,o,k=k):
                    s=S(D,k)
                    def sm(a,b,c,d): return Or(s.same(a,b,c,d),And(s.emp(a,b),s.emp(c,d)))     # empty intervals are all the same
                    def g():
                        return And(o.f0==o.f1,o.f0==o.f2,sm(o.l0,o.u0,o.l1,o.u1),sm(o.l0,o.u0,o.l2,o.u2),
                            s.same(o.al,o.au,o.al1,o.au1),s.same(o.al,o.au,o.al2,o.au2),s.same(o.ml,o.mu,o.ml1,o.mu1),s.same(o.ml,o.mu,o.ml2,o.mu2),o.md!=0,o.mode==i.entry)
                    return ret(o,g)
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),ins,outs,pre,post,domain='cong',consts={'p':[F(1),F(3,2),F(100000),F(7,1024)],'q':[F(3),F(5,4),F(9,256)]},max_paths=40000,budget=200,opts={'recbound':2 if n=='sin' else 1,'cut':True} if n in TRIG else None,vectors=6,weight=50 if n in TRIG else 20 if n in('mul','div','fmod') else 1))
    return ts
