from spec import *
BOUNDS='every ordered pair of bounds, infinite points included and all numbers, infinite ones included; for the operators also the empty interval and NaN numbers where the policy checks them; float, double, long double, int; same-policy, mixed-policy and number operands (number first too for the named functions); loop-free code'
def tasks(tier):
    ts=[]
    for T,k in ITYPES:
        for P,(ex,ey) in(('def',(False,True)),('ob',(True,False))):
            for n in RELS:
                for fam,rel in(('certain',allrel),('possible',somerel),('cer',allrel),('pos',somerel)):
                    op=len(fam)>3
                    for form,ins,em in(('',XY,ex),('m',XY,ey),('s',('xl','xu','s'),None))+((('n',('xl','xu','s'),None),) if not op else ()):
                        def pre(D,i,k=k,ins=ins,ex=ex and op,em=em and op,nn=op and P=='ob'):
                            s=S(D,k); c=s.dom(i.xl,i.xu,ex)
                            return And(c,s.dom(i.yl,i.yu,em)) if 'yl' in ins else And(c,s.num(i.s,nn))
                        def post(D,i,o,k=k,n=n,ins=ins,rel=rel,form=form):
                            s=S(D,k); a,b=i.xl,i.xu; c,d=(i.yl,i.yu) if 'yl' in ins else (i.s,i.s)
                            if form=='n': a,b,c,d=c,d,a,b
                            e=Or(s.emp(a,b),s.emp(c,d))
                            if o.kind=='ret': return And(Not(e),isbool(o.b,rel(s,n,a,b,c,d)))
                            return And(throws(o,COMPARE_EXC),e)
                        nm='%s%s%s'%(fam,n,form)
                        ts.append(Task('%s/%s/%s'%(nm,P,T),'%s_%s_%s'%(nm,P,T),xins(k,*ins),[('b','i8')],pre,post,vectors=8,domain='exact' if k=='i32' else 'ord'))
    return ts
