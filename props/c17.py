from spec import *
BOUNDS='every ordered pair of bounds, infinite points included, the empty interval (NaN bounds) and NaN numbers for types whose policy allows them, all numbers, infinite ones included; float, double, long double, int (without widen); three policies; all four entry rounding modes; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in ITYPES:
        for P in('def','ob','sb'):
            e=P!='def'
            def dom(s,l,u,e=e): return s.dom(l,u,e)
            def num(s,x,e=e): return s.num(x,e)
            def hull(s,o,P,a,b,c,d):
                """hull of [a,b] and [c,d], invalid ones ignored"""
                e1=s.emp(a,b); e2=s.emp(c,d)
                r=ret(o,lambda:s.is_(o.lo,o.hi,s.ite(e1,c,s.ite(e2,a,s.mn(a,c))),s.ite(e1,d,s.ite(e2,b,s.mx(b,d)))))
                return Ite(And(e1,e2),empties(s,o,P),r)
            def isect(s,i,o,P):
                e=Or(s.emp(i.xl,i.xu),s.emp(i.yl,i.yu)); l=s.mx(i.xl,i.yl); u=s.mn(i.xu,i.yu)
                return Ite(Or(e,Not(s.le(l,u))),empties(s,o,P),ret(o,lambda:s.is_(o.lo,o.hi,l,u)))
            def wid(s,i,o,P):
                return Ite(s.emp(i.xl,i.xu),empties(s,o,P),ret(o,lambda:s.is_(o.lo,o.hi,s.sub('dn',i.xl,i.s),s.add('up',i.xu,i.s))))
            forms=[('intersect',XY,isect),('hull',XY,lambda s,i,o,P:hull(s,o,P,i.xl,i.xu,i.yl,i.yu)),
               ('hullis',('xl','xu','s'),lambda s,i,o,P:hull(s,o,P,i.xl,i.xu,i.s,i.s)),('hullsi',('xl','xu','s'),lambda s,i,o,P:hull(s,o,P,i.xl,i.xu,i.s,i.s)),
               ('hullss',('s','t'),lambda s,i,o,P:hull(s,o,P,i.s,i.s,i.t,i.t)),('widen',('xl','xu','s'),wid)]
            if k=='i32': forms=forms[:-1]              # widen needs rounded arithmetic: C27 has the integers
            if P=='def': forms.append(('hullfree',('s','t'),lambda s,i,o,P:hull(s,o,P,i.s,i.s,i.t,i.t)))
            for n,ins,f in forms:
                def pre(D,i,k=k,ins=ins,n=n,dom=dom,num=num):
                    s=S(D,k); c=True
                    if 'xl' in ins: c=dom(s,i.xl,i.xu)
                    if 'yl' in ins: c=And(c,dom(s,i.yl,i.yu))
                    for v in('s','t'):
                        if v in ins: c=And(c,s.fin(i[v]) if n=='widen' else num(s,i[v]))
                    return c
                def post(D,i,o,k=k,f=f,P=P): return f(S(D,k),i,o,P)
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T) if n!='hullfree' else 'hullfree_'+T,xins(k,*ins),[('lo',k),('hi',k)],pre,post,domain='exact' if k=='i32' else 'ord'))
    return ts
