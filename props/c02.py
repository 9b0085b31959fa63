from spec import *
BOUNDS='all bit patterns of well-formed bounds (lower<=upper, lower<+inf, upper>-inf) and all finite scalars; float, double, long double; default policy and the mode-switching policy; all four entry rounding modes; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb'):
            def pre2(D,i,k=k): s=S(D,k); return And(s.wf(i.xl,i.xu),s.wf(i.yl,i.yu))
            def pre1(D,i,k=k): s=S(D,k); return And(s.wf(i.xl,i.xu),s.fin(i.s))
            def p2(D,i,o,k=k):
                s=S(D,k)
                return ret(o,lambda:s.is_(o.lo,o.hi,*s.imul(i.xl,i.xu,i.yl,i.yu)))
            def p1(D,i,o,k=k):
                s=S(D,k)
                return ret(o,lambda:s.is_(o.lo,o.hi,*s.imul(i.xl,i.xu,i.s,i.s)))
            outs=[('lo',k),('hi',k)]
            for op,post,pre,ins in(('mul',p2,pre2,XY),('mulas',p2,pre2,XY),('mulis',p1,pre1,('xl','xu','s')),('mulsi',p1,pre1,('xl','xu','s')),('mulass',p1,pre1,('xl','xu','s'))):
                ts.append(Task('%s/%s/%s'%(op,P,T),'%s_%s_%s'%(op,P,T),xins(k,*ins),outs,pre,post,weight=len(ins)))
    return ts
