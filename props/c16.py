from spec import *
BOUNDS='every ordered pair of bounds, infinite points included, and the empty interval (NaN bounds; for int every pair in the wrong order) for types whose policy allows one; all numbers, infinite and NaN included; float, double, long double, int; three policies and mixtures of two; loop-free code'
MAYEMPTY={'def':(False,True),'ob':(True,True),'sb':(True,False)}  # own type, partner in the mixed forms
def tasks(tier):
    ts=[]
    for T,k in ITYPES:
        for P in('def','ob','sb'):
            un={'empty':lambda s,i:s.emp(i.xl,i.xu),'singleton':lambda s,i:s.eq(i.xl,i.xu),
                'zeroin':lambda s,i:And(s.nonpos(i.xl),s.nonneg(i.xu))}
            un['inzero']=un['zeroin']
            E=lambda s,i:s.emp(i.xl,i.xu); Y=lambda s,i:s.emp(i.yl,i.yu)
            sub=lambda s,i:Or(E(s,i),And(s.le(i.yl,i.xl),s.le(i.xu,i.yu)))
            bi={'subset':sub,'proper':lambda s,i:And(sub(s,i),Not(Or(And(E(s,i),Y(s,i)),And(s.le(i.xl,i.yl),s.le(i.yu,i.xu))))),
                'overlap':lambda s,i:And(s.le(i.xl,i.xu),s.le(i.yl,i.yu),s.le(i.xl,i.yu),s.le(i.yl,i.xu)),
                'equal':lambda s,i:Or(And(E(s,i),Y(s,i)),And(s.eq(i.xl,i.yl),s.eq(i.xu,i.yu)))}
            a,b=MAYEMPTY[P]
            forms=[(n,('xl','xu'),f,a,a) for n,f in un.items()]+[(n,XY,f,a,a) for n,f in bi.items()]+[(n+'m',XY,bi[n],a,b) for n in('proper','overlap','equal')]
            forms.append(('in',('xl','xu','s'),lambda s,i:And(s.le(i.xl,i.s),s.le(i.s,i.xu)),a,a))
            for n,ins,f,ea,eb in forms:
                def pre(D,i,k=k,ins=ins,ea=ea,eb=eb):
                    s=S(D,k); c=s.dom(i.xl,i.xu,ea)
                    if 'yl' in ins: c=And(c,s.dom(i.yl,i.yu,eb))
                    if 's' in ins: c=And(c,s.num(i.s))
                    return c
                def post(D,i,o,k=k,f=f):
                    s=S(D,k)
                    return ret(o,lambda:And(Iff(o.b!=0,f(s,i)),Or(o.b==0,o.b==1)))
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),xins(k,*ins),[('b','i8')],pre,post,domain='exact' if k=='i32' else 'ord'))
    return ts
