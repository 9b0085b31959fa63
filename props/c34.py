from spec import *
from opslist import *
ASM='threads'
BOUNDS=('two threads, the second one runs one whole operation (the same one, on arguments of its own) at any one of the first 64 accesses to shared variables; all bit patterns of the '
 'arguments of both, NaN and infinities included (trigonometric functions: finite, ordered); float, double, long double with one policy each; pow with the listed exponents, '
 'argument reduction up to the depth that finite arguments need; integer roots are not covered')
ASSUMPTIONS=['the floating-point environment belongs to the thread; the base functions (libm) are deterministic and keep no state','memory is sequentially consistent; other threads wait while a static variable is being initialised']
POL={'float':('sb','tsb'),'double':('def','tos'),'ldouble':('ob','tob')}
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        A,R=POL[T]
        for P,L in((A,ARITH+PRED+CONV),(R,TRANS),('tos',TRIG)):
            for n in L:
                w={'cvf':'float','cvd':'double','cvl':'x86_fp80','cvas':'x86_fp80'}.get(n,k)
                one=lambda p:[(p+v,k) for v in('xl','xu','yl','yu','s','t')]+[(p+'w',w),(p+'n','i32')]
                ins=one('')+one('other_')+[('at','i32')]
                outs=[('lo',k),('hi',k),('lo2',k),('hi2',k),('f','i32'),('f2','i32')]
                def pre(D,i,k=k,n=n):
                    s=S(D,k); c=And(0<=i.at,i.at<=64)
                    return And(c,s.finwf(i.xl,i.xu),s.finwf(i.other_xl,i.other_xu)) if n in TRIG else c
                def post(D,i,o,k=k):
                    s=S(D,k)
                    return ret(o,lambda:And(o.f==o.f2,o.mode==i.entry,s.same(o.lo,o.hi,o.lo2,o.hi2)))
                lim=n in TRIG
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),ins,outs,pre,post,domain='cong',max_paths=40000,budget=60,opts={'recbound':2 if n=='sin' else 1,'cut':True} if n in TRIG else None,vectors=6,weight=50 if lim else 20 if n in('mul','div','fmod') else 1,
                    consts={'at':[0,1,2,3,5]}))
    return ts
