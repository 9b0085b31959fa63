from spec import *
BOUNDS='every ordered pair of bounds, infinite points included and all numbers, infinite ones included; the empty interval and NaN numbers where the policy allows or checks them; float, double, long double, int; same-policy, mixed-policy and number operands; loop-free code'
def tasks(tier):
    ts=[]
    for T,k in ITYPES:
        for P,(ex,ey) in(('def',(False,True)),('ob',(True,False))):
            for n in RELS:
                for form,ins,em in(('',XY,ex),('m',XY,ey),('s',('xl','xu','s'),None)):
                    def pre(D,i,k=k,ins=ins,ex=ex,em=em,nn=P=='ob'):
                        s=S(D,k); c=s.dom(i.xl,i.xu,ex)
                        return And(c,s.dom(i.yl,i.yu,em)) if 'yl' in ins else And(c,s.num(i.s,nn))
                    def post(D,i,o,k=k,n=n,ins=ins):
                        s=S(D,k); a,b=i.xl,i.xu; c,d=(i.yl,i.yu) if 'yl' in ins else (i.s,i.s)
                        e=Or(s.emp(a,b),s.emp(c,d)); al=allrel(s,n,a,b,c,d); no=allrel(s,NEGREL[n],a,b,c,d)
                        if o.kind=='ret': return And(Not(e),Iff(o.b==1,al),Iff(o.b==0,no),Or(o.b==0,o.b==1,o.b==2))
                        return And(throws(o,COMPARE_EXC),e)
                    ts.append(Task('%s%s/%s/%s'%(n,form,P,T),'%s%s_%s_%s'%(n,form,P,T),xins(k,*ins),[('b','i8')],pre,post,domain='exact' if k=='i32' else 'ord'))
    return ts
