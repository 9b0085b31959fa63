from spec import *
BOUNDS='every ordered pair of bounds, infinite points included and all numbers, infinite ones included; the empty interval and NaN numbers where the policy allows or checks them; float, double, long double, int; same-policy, mixed-policy and number operands; loop-free code'
def lex(s,n,a,b,c,d):
    lt=Or(s.lt(a,c),And(s.eq(a,c),s.lt(b,d))); gt=Or(s.lt(c,a),And(s.eq(a,c),s.lt(d,b))); eq=And(s.eq(a,c),s.eq(b,d))
    return {'lt':lt,'gt':gt,'eq':eq,'ne':Or(lt,gt),'le':Or(lt,eq),'ge':Or(gt,eq)}[n]
def incl(s,a,b,c,d): return Or(s.emp(a,b),And(s.le(c,a),s.le(b,d)))   # [a,b] within [c,d] as sets; an empty [c,d] has NaN bounds
def sets(s,n,a,b,c,d):
    p=incl(s,a,b,c,d); q=incl(s,c,d,a,b)
    return {'lt':And(p,Not(q)),'gt':And(q,Not(p)),'eq':And(p,q),'ne':Not(And(p,q)),'le':p,'ge':q}[n]
def tasks(tier):
    ts=[]
    for T,k in ITYPES:
        for P,(ex,ey) in(('def',(False,True)),('ob',(True,False))):
            for n in RELS:
                for fam,rel in(('lexicographic',lex),('set',sets)):
                    for form,ins,em in(('',XY,ex),('m',XY,ey),('s',('xl','xu','s'),None)):
                        if fam=='set' and form=='m' and n in('le','ge'): continue
                        def pre(D,i,k=k,ins=ins,ex=ex,em=em,nn=P=='ob'):
                            s=S(D,k); c=s.dom(i.xl,i.xu,ex)
                            return And(c,s.dom(i.yl,i.yu,em)) if 'yl' in ins else And(c,s.num(i.s,nn))
                        def post(D,i,o,k=k,n=n,ins=ins,rel=rel,fam=fam,form=form):
                            if fam=='set' and form=='s': return throws(o,COMPARE_EXC)
                            s=S(D,k); a,b=i.xl,i.xu; c,d=(i.yl,i.yu) if 'yl' in ins else (i.s,i.s)
                            e=Or(s.emp(a,b),s.emp(c,d)) if fam!='set' else False
                            if o.kind=='ret': return And(Not(e),isbool(o.b,rel(s,n,a,b,c,d)))
                            return And(throws(o,COMPARE_EXC),e)
                        nm='%s%s%s'%(fam,n,form)
                        ts.append(Task('%s/%s/%s'%(nm,P,T),'%s_%s_%s'%(nm,P,T),xins(k,*ins),[('b','i8')],pre,post,vectors=12,domain='exact' if k=='i32' else 'ord'))
    return ts
