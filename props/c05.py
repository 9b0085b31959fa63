from spec import *
BOUNDS='all bit patterns of well-formed bounds and all finite scalars; float, double, long double; default policy and the mode-switching policy; all four entry rounding modes; loop-free code'
def sq(s,l,u):
    a=s.ite(s.neg(u),u,s.ite(s.pos(l),l,s.zero)); 
    b=s.ite(s.lt(s.mx(s.minus(l),l),s.mx(s.minus(u),u)),u,l)
    return s.prod('dn',a,a),s.prod('up',b,b)
def ab(s,l,u):
    return s.ite(s.neg(u),s.minus(u),s.ite(s.pos(l),l,s.zero)),s.mx(s.minus(l),u)
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb'):
            forms={'abs':(('xl','xu'),lambda s,i:ab(s,i.xl,i.xu)),'square':(('xl','xu'),lambda s,i:sq(s,i.xl,i.xu)),
              'min':(XY,lambda s,i:(s.mn(i.xl,i.yl),s.mn(i.xu,i.yu))),'max':(XY,lambda s,i:(s.mx(i.xl,i.yl),s.mx(i.xu,i.yu))),
              'minis':(('xl','xu','s'),lambda s,i:(s.mn(i.xl,i.s),s.mn(i.xu,i.s))),'maxis':(('xl','xu','s'),lambda s,i:(s.mx(i.xl,i.s),s.mx(i.xu,i.s)))}
            forms['minsi']=forms['minis']; forms['maxsi']=forms['maxis']
            for op,(ins,f) in forms.items():
                def pre(D,i,k=k,ins=ins):
                    s=S(D,k); c=s.wf(i.xl,i.xu)
                    if 'yl' in ins: c=And(c,s.wf(i.yl,i.yu))
                    if 's' in ins: c=And(c,s.fin(i.s))
                    return c
                def post(D,i,o,k=k,f=f):
                    s=S(D,k)
                    return ret(o,lambda:s.is_(o.lo,o.hi,*f(s,i)))
                ts.append(Task('%s/%s/%s'%(op,P,T),'%s_%s_%s'%(op,P,T),xins(k,*ins),[('lo',k),('hi',k)],pre,post,weight=len(ins)))
    return ts
