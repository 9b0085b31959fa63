from spec import *
BOUNDS='all bit patterns of well-formed bounds; float, double, long double; the default policy, both hardware rounding policies with the basic checking policy and the elementary-function policy; all four entry rounding modes; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb','ob','tob'):
            def pre(D,i,k=k): return S(D,k).wf(i.xl,i.xu)
            def post(D,i,o,k=k,P=P):
                s=S(D,k)
                e=empties(s,o,P)
                l=s.ite(s.pos(i.xl),i.xl,s.zero)
                return Ite(s.neg(i.xu),e,ret(o,lambda:And(s.is_(o.lo,o.hi,s.sqrt('dn',l),s.sqrt('up',s.mx(i.xu,s.zero))),s.nonneg(o.lo))))
            ts.append(Task('sqrt/%s/%s'%(P,T),'sqrt_%s_%s'%(P,T),xins(k,'xl','xu'),[('lo',k),('hi',k)],pre,post))
    return ts
