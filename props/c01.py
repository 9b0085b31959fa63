from spec import *
BOUNDS='all bit patterns of well-formed bounds (lower<=upper, lower<+inf, upper>-inf) and all finite scalars; float, double, long double; default policy and the mode-switching policy; all four entry rounding modes; loop-free code, no unrolling bound'
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb'):
            def pre2(D,i,k=k): s=S(D,k); return And(s.wf(i.xl,i.xu),s.wf(i.yl,i.yu))
            def pre1(D,i,k=k): s=S(D,k); return And(s.wf(i.xl,i.xu),s.fin(i.s))
            def pre0(D,i,k=k): return S(D,k).wf(i.xl,i.xu)
            def post(f):
                def p(D,i,o,k=k):
                    s=S(D,k)
                    return ret(o,lambda:s.is_(o.lo,o.hi,*f(s,i)))
                return p
            A=lambda s,i:(s.add('dn',i.xl,i.yl),s.add('up',i.xu,i.yu)); B=lambda s,i:(s.sub('dn',i.xl,i.yu),s.sub('up',i.xu,i.yl))
            As=lambda s,i:(s.add('dn',i.xl,i.s),s.add('up',i.xu,i.s)); Bs=lambda s,i:(s.sub('dn',i.xl,i.s),s.sub('up',i.xu,i.s)); Cs=lambda s,i:(s.sub('dn',i.s,i.xu),s.sub('up',i.s,i.xl))
            outs=[('lo',k),('hi',k)]
            for op,f,pre,ins in(('add',A,pre2,XY),('sub',B,pre2,XY),('addas',A,pre2,XY),('subas',B,pre2,XY),
                    ('addis',As,pre1,('xl','xu','s')),('addsi',As,pre1,('xl','xu','s')),('subis',Bs,pre1,('xl','xu','s')),('subsi',Cs,pre1,('xl','xu','s')),('addass',As,pre1,('xl','xu','s')),('subass',Bs,pre1,('xl','xu','s')),
                    ('neg',lambda s,i:(s.minus(i.xu),s.minus(i.xl)),pre0,('xl','xu')),('plus',lambda s,i:(i.xl,i.xu),pre0,('xl','xu'))):
                ts.append(Task('%s/%s/%s'%(op,P,T),'%s_%s_%s'%(op,P,T),xins(k,*ins),outs,pre,post(f)))
    return ts
