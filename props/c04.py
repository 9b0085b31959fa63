from spec import *
BOUNDS='all bit patterns of well-formed bounds (lower<=upper, lower<+inf, upper>-inf); float, double, long double; default policy and the mode-switching policy; all four entry rounding modes; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb'):
            def pre(D,i,k=k): s=S(D,k); return And(s.wf(i.xl,i.xu),s.wf(i.yl,i.yu))
            def strict(s,i): return And(s.neg(i.yl),s.pos(i.yu))
            def prex(D,i,k=k): s=S(D,k); return And(pre(D,i,k),strict(s,i),Or(s.pos(i.xl),s.neg(i.xu)))
            def parts(s,i):
                # X>0 or X<0 (X touching zero: the limits are zero), 0 strictly inside Y
                xp=s.pos(i.xu)
                return (s.ite(xp,s.div('up',i.xl,i.yl),s.div('up',i.xu,i.yu)),s.ite(xp,s.div('dn',i.xl,i.yu),s.div('dn',i.xu,i.yl)))
            def p1(D,i,o,k=k,P=P,two=False):
                s=S(D,k); yz=And(s.isz(i.yl),s.isz(i.yu)); xz=And(s.isz(i.xl),s.isz(i.xu))
                e=empties(s,o,P)
                if o.kind=='ret':
                    b=o.b!=0 if isinstance(o.b,int) else o.b!=0
                    st=strict(s,i); up,dn=parts(s,i)
                    must=And(st,Or(s.pos(i.xl),s.neg(i.xu))); mustnot=Or(Not(st),xz,And(s.neg(i.xl),s.pos(i.xu)))
                    flag=And(Implies(must,b),Implies(mustnot,Not(b)))
                    t=s.is_(o.lo,o.hi,s.ninf,up)
                    if two: t=And(t,s.is_(o.lo2,o.hi2,dn,s.pinf))
                    e2=And(flag,Ite(b,t,divspec(s,o.lo,o.hi,i.xl,i.xu,i.yl,i.yu)))
                    if not two: # the flag is a bool: no other value
                        e2=And(e2,Or(o.b==0,o.b==1) if not isinstance(o.b,int) else o.b in(0,1))
                    if P not in STRICT: e=And(e,Not(b))
                else: e2=False
                return Ite(yz,e,e2)
            def pb(D,i,o,k=k,P=P): return p1(D,i,o,k,P,True)
            def p2(D,i,o,k=k,P=P):
                s=S(D,k)
                return ret(o,lambda:s.is_(o.lo,o.hi,parts(s,i)[1],s.pinf))
            def pf(D,i,o,k=k,P=P): return empties(S(D,k),o,P)
            o2=[('lo',k),('hi',k)]
            for op,post,pr,outs in(('part1',p1,pre,o2+[('b','i8')]),('both',pb,pre,o2+[('lo2',k),('hi2',k),('b','i8')]),('part2',p2,prex,o2),('part2d',p2,prex,o2),('part2f',pf,pre,o2)):
                ts.append(Task('%s/%s/%s'%(op,P,T),'%s_%s_%s'%(op,P,T),xins(k,*XY),outs,pr,post))
    return ts
