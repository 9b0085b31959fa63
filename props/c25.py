from spec import *
BOUNDS='all bit patterns of well-formed bounds, all finite numbers, all 32-bit integers; float, double, long double; default policy and the mode-switching policy; operands that alias the assigned object; all four entry rounding modes; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb'):
            outs=[('lo',k),('hi',k),('lo2',k),('hi2',k),('f','i8'),('f2','i8')]
            def pre(D,i,k=k,pos=None):
                s=S(D,k); c=True
                if hasattr(i,'xl'): c=s.wf(i.xl,i.xu)
                if hasattr(i,'yl'): c=And(c,s.wf(i.yl,i.yu))
                for v in('s','t'):
                    if hasattr(i,v): c=And(c,s.fin(i[v]))
                return c
            def predge(D,i,k=k,n=None): s=S(D,k); return And(pre(D,i,k),s.fin(i[n]))
            def sameres(s,o): return Or(And(s.eq(o.lo,o.lo2),s.eq(o.hi,o.hi2)),And(s.emp(o.lo,o.hi),s.emp(o.lo2,o.hi2)))
            def comp(D,i,o,k=k,twice=False):
                s=S(D,k)
                if o.kind!='ret': return False
                thr=And(o.f==2,o.f2==2) 
                un=And(s.same(o.lo2,o.hi2,i.xl,i.xu))
                return Or(And(o.f==1,o.f2==1,sameres(s,o)),And(thr,un))
            def diff(D,i,o,k=k):
                s=S(D,k)
                if o.kind!='ret': return False
                return Or(And(o.f==1,o.f2==1,sameres(s,o)),And(o.f==2,o.f2==2))
            X=[('xl',k),('xu',k)]; XY_=X+[('yl',k),('yu',k)]; XS=X+[('s',k)]; XK=X+[('n','i32')]
            fpre=lambda D,i,k=k: And(pre(D,i,k),S(D,k).fin(i.xl),S(D,k).fin(i.xu),Or(S(D,k).pos(i.s),S(D,k).pos(i.xl)))
            for op in('add','sub','mul','div'):
                L=[('cii',XY_,pre,comp),('cis',XS,pre,comp),('cself',X,pre,comp),('clow',X,lambda D,i,k=k:predge(D,i,k,'xl'),comp),('cup',X,lambda D,i,k=k:predge(D,i,k,'xu'),comp),
                   ('is',XS,pre,diff),('si',XS,pre,diff),('ik',XK,pre,diff),('ki',XK,pre,diff)]
                if op in('add','sub') : L.append(('cret',XY_,pre,comp))
                for f,ins,pr,po in L:
                    ts.append(Task('%s%s/%s/%s'%(f,op,P,T),'%s%s_%s_%s'%(f,op,P,T),ins,outs,pr,po,vectors=10,weight=len(ins)*(3 if op in('div','mul') else 1)))
                ts.append(Task('nn%s/%s/%s'%(op,P,T),'nn%s_%s_%s'%(op,P,T),[('s',k),('t',k)],outs,pre,diff,vectors=10))
            for f in('min','max','hull'):
                for v in('is','si'): ts.append(Task('%s%s/%s/%s'%(v,f,P,T),'%s%s_%s_%s'%(v,f,P,T),XS,outs,pre,diff,vectors=10))
            for v in('is','si'):
                pr=(lambda D,i,k=k: And(S(D,k).finwf(i.xl,i.xu),S(D,k).fin(i.s),S(D,k).pos(i.s))) if v=='is' else (lambda D,i,k=k: And(S(D,k).finwf(i.xl,i.xu),S(D,k).fin(i.s),S(D,k).pos(i.xl)))
                ts.append(Task('%sfmod/%s/%s'%(v,P,T),'%sfmod_%s_%s'%(v,P,T),XS,outs,pr,diff,vectors=10,weight=20))
    return ts
