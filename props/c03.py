from spec import *
BOUNDS='all bit patterns of well-formed bounds (lower<=upper, lower<+inf, upper>-inf) and all finite scalars; float, double, long double; default policy and the mode-switching policy; all four entry rounding modes; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb'):
            forms={'div':(('xl','xu','yl','yu'),lambda s,i:(i.xl,i.xu,i.yl,i.yu)),'divis':(('xl','xu','s'),lambda s,i:(i.xl,i.xu,i.s,i.s)),
                   'divsi':(('xl','xu','s'),lambda s,i:(i.s,i.s,i.xl,i.xu)),'inv':(('xl','xu'),lambda s,i:(s.n(1),s.n(1),i.xl,i.xu))}
            forms['divas']=forms['div']; forms['divass']=forms['divis']
            for op,(ins,f) in forms.items():
                def pre(D,i,k=k,ins=ins):
                    s=S(D,k); c=s.wf(i.xl,i.xu)
                    if 'yl' in ins: c=And(c,s.wf(i.yl,i.yu))
                    if 's' in ins: c=And(c,s.fin(i.s))
                    return c
                def post(D,i,o,k=k,f=f,P=P):
                    s=S(D,k); a,b,c,d=f(s,i); yz=And(s.isz(c),s.isz(d))
                    e=empties(s,o,P)
                    return Ite(yz,e,ret(o,lambda:divspec(s,o.lo,o.hi,a,b,c,d)))
                ts.append(Task('%s/%s/%s'%(op,P,T),'%s_%s_%s'%(op,P,T),xins(k,*ins),[('lo',k),('hi',k)],pre,post,weight=len(ins)))
    return ts
