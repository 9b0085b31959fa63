from spec import *
from opslist import *
BOUNDS=('every pair of numbers in the wrong order as the empty interval of the policy, any number returned by nan(), the infinities or the largest finite numbers '
 'as its infinities; all bit patterns of well-formed bounds, the empty interval, all finite numbers and NaN; float, double, long double; all four entry rounding modes; '
 'pow with the exponents 0, 1, 2, 3, 6, -1, -2; loop-free code')
ASSUMPTIONS=['the basic checking policy is decided by C24: here the results under an arbitrary policy are related to those under the basic one','the base functions (libm) are deterministic functions of argument and rounding mode']
SC={'adds','sadd','subs','ssub','muls','smul','divs','sdiv','addass','subass','mulass','divass','hulls','shull','widen','mins','smin','maxs','smax','ctor1','asg','lts','eqs','in','fmods','sfmod'}
ST={'shullt','nadd','nsub','nmul','ndiv','ctor','assign'}
II={'add','sub','mul','div','addas','subas','mulas','divas','part1','part2f','hull','intersect','min','max','lt','le','gt','ge','eq','ne','equ','subset','psubset','overlap','fmod'}
NOX={'shullt','nadd','nsub','nmul','ndiv','ctor','ctor1','assign','asg'}
CMP={'lt','le','gt','ge','eq','ne','lts','eqs'}
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        eb,sb=FPSORT[k]; MAX=F(2)**(1<<(eb-1))-F(2)**((1<<(eb-1))-sb)
        def sent(s,i):
            # a pair no valid interval has; the largest numbers or the infinities; any number
            return And(*[Not(s.nan(i[v])) for v in('e1','e2','p','n','v')],s.lt(i.e2,i.e1),Or(s.eq(i.p,s.n(MAX)),s.eq(i.p,s.pinf)),Or(s.eq(i.n,s.n(-MAX)),s.eq(i.n,s.ninf)))
        for n in [n for n in ARITH+PRED+TRANS if n not in('pi','pi2','bis1','bis2','part2')]:
            hasx=n not in NOX; hasy=n in II; hass=n in SC or n in ST; hast=n in ST
            # the invalid number of the policy matters to arguments only
            def pre(D,i,k=k,n=n,hasx=hasx,hasy=hasy,hass=hass,hast=hast):
                s=S(D,k); c=[sent(s,i)]; E=lambda a,b:And(s.eq(a,i.e1),s.eq(b,i.e2))
                if hasx: c.append(Or(s.wf(i.xl,i.xu),E(i.xl,i.xu)))
                if hasy: c.append(Or(s.wf(i.yl,i.yu),E(i.yl,i.yu)))
                if hass: c.append(s.fin(i.s) if n=='widen' else Or(s.fin(i.s),s.nan(i.s)))
                if hast: c.append(Or(s.fin(i.t),s.nan(i.t)))
                if n=='median': c.append(Or(s.finwf(i.xl,i.xu),E(i.xl,i.xu)))
                d={'fmod':i.yl,'fmods':i.s,'sfmod':i.xl}.get(n)      # a positive divisor, unless it is empty or invalid
                if d is not None: c.append(Or(s.pos(d),s.nan(d),And(E(i.yl,i.yu) if n=='fmod' else E(i.xl,i.xu) if n=='sfmod' else False)))
                if n=='widen': c.append(And(s.nonneg(i.s)))
                return And(*c)
            def post(D,i,o,k=k,n=n,hasx=hasx,hasy=hasy,hass=hass,hast=hast):
                s=S(D,k); E=lambda a,b:And(s.eq(a,i.e1),s.eq(b,i.e2)); V=lambda a:s.nan(a)
                ex=E(i.xl,i.xu) if hasx else False; ey=E(i.yl,i.yu) if hasy else False
                bs=V(i.s) if hass and n not in('widen',) else False; bt=V(i.t) if hast else False
                def g():
                    r=lambda b:And(o.f==1,Iff(s.eq(o.lo,s.n(1)),b),Or(s.isz(o.lo),s.eq(o.lo,s.n(1))))
                    emp=And(o.f==1,E(o.lo,o.hi)); num=lambda x:And(o.f==1,s.eq(o.lo,x))
                    bad=Or(ex,ey,bs,bt)
                    # as under the basic policy, with the infinities of this one
                    sameb=And(o.f==o.f2,Or(And(s.nan(o.lo2),s.nan(o.hi2),E(o.lo,o.hi)),
                        And(Or(s.eq(o.lo,o.lo2),And(s.eq(o.lo2,s.ninf),s.eq(o.lo,i.n))),Or(s.eq(o.hi,o.hi2),And(s.eq(o.hi2,s.pinf),s.eq(o.hi,i.p))))))
                    lo_p=lo_n=False
                    c=[]
                    # bounds that are infinite because the set is unbounded
                    LO=HI=False
                    z=And(s.nonpos(i.yl),s.nonneg(i.yu)) if hasy else False
                    if n in('div','divas'):
                        in0=And(s.neg(i.yl),s.pos(i.yu)); zx=And(s.isz(i.xl),s.isz(i.xu))
                        LO=And(Not(zx),Or(in0,And(s.isz(i.yl),s.pos(i.yu),s.neg(i.xl)),And(s.isz(i.yu),s.neg(i.yl),s.pos(i.xu))))
                        HI=And(Not(zx),Or(in0,And(s.isz(i.yl),s.pos(i.yu),s.pos(i.xu)),And(s.isz(i.yu),s.neg(i.yl),s.neg(i.xl))))
                    elif n in('inv','sdiv'):
                        in0=And(s.neg(i.xl),s.pos(i.xu)); ns,ps=(s.neg(i.s),s.pos(i.s)) if n=='sdiv' else (False,True)
                        LO=Or(And(in0,Or(ns,ps)),And(s.isz(i.xl),s.pos(i.xu),ns),And(s.isz(i.xu),s.neg(i.xl),ps))
                        HI=Or(And(in0,Or(ns,ps)),And(s.isz(i.xl),s.pos(i.xu),ps),And(s.isz(i.xu),s.neg(i.xl),ns))
                    elif n=='log': LO=And(s.nonpos(i.xl),s.pos(i.xu))
                    elif n=='atanh':
                        LO=And(s.le(i.xl,s.n(-1)),s.lt(s.n(-1),i.xu)); HI=And(s.le(s.n(1),i.xu),s.lt(i.xl,s.n(1)))
                    elif n=='pown1':
                        LO=And(s.neg(i.xl),s.nonneg(i.xu)); HI=And(s.nonpos(i.xl),s.pos(i.xu))
                    good=And(sameb,Implies(LO,s.eq(o.lo,i.n)),Implies(HI,s.eq(o.hi,i.p)))
                    if n in CMP: return Ite(bad,o.f==2,And(o.f==o.f2,s.eq(o.lo,o.lo2)))
                    if n in PRED:
                        if n=='emp': return r(ex)
                        if n=='equ': return Ite(Or(ex,ey),r(And(ex,ey)),And(o.f==1,s.eq(o.lo,o.lo2)))
                        if n=='subset': return Ite(Or(ex,ey),r(ex),And(o.f==1,s.eq(o.lo,o.lo2)))
                        if n=='psubset': return Ite(Or(ex,ey),r(And(ex,Not(ey))),And(o.f==1,s.eq(o.lo,o.lo2)))
                        return Ite(bad,r(False),And(o.f==1,s.eq(o.lo,o.lo2)))
                    if n in('median','norm'): return Ite(bad,num(i.v),num(o.lo2))
                    if n=='width': return Ite(bad,num(s.zero),num(o.lo2))
                    if n in('pos','copy'): return And(o.f==1,s.eq(o.lo,i.xl),s.eq(o.hi,i.xu))
                    if n=='hull': return Ite(And(ex,ey),emp,Ite(ex,And(s.eq(o.lo,i.yl),s.eq(o.hi,i.yu)),Ite(ey,And(s.eq(o.lo,i.xl),s.eq(o.hi,i.xu)),good)))
                    if n in('hulls','shull'): return Ite(And(ex,bs),emp,Ite(ex,And(s.eq(o.lo,i.s),s.eq(o.hi,i.s)),Ite(bs,And(s.eq(o.lo,i.xl),s.eq(o.hi,i.xu)),good)))
                    if n=='shullt': return Ite(And(bs,bt),emp,Ite(bs,And(s.eq(o.lo,i.t),s.eq(o.hi,i.t)),Ite(bt,And(s.eq(o.lo,i.s),s.eq(o.hi,i.s)),good)))
                    return Ite(bad,emp,good)
                return ret(o,g)
            ts.append(Task('%s/%s'%(n,T),'%s_%s'%(n,T),xins(k,'xl','xu','yl','yu','s','t')+[('w',k),('n0','i32')]+xins(k,'e1','e2','p','n','v'),[('lo',k),('hi',k),('lo2',k),('hi2',k),('f','i32'),('f2','i32')],pre,post,vectors=8,gen=gen(k),weight=10 if n in('mul','div','part1') else 1))
        ins=xins(k,'xl','xu','yl','yu','s','t')+[('w',k),('n0','i32')]+xins(k,'e1','e2','p','n','v')
        for nm in('default','certain','possible','lexicographic','tribool','set'):
            for form in('same','mix','xim','num'):
                O=['lt','le','gt','ge','eq','ne']
                if nm=='set' and form in('mix','xim'): O=['lt','gt','eq','ne']      # subset takes one policy only
                def cpre(D,i,k=k,form=form,nm=nm):
                    s=S(D,k); E=lambda a,b:And(s.eq(a,i.e1),s.eq(b,i.e2))
                    return And(sent(s,i),Or(s.wf(i.xl,i.xu),E(i.xl,i.xu)),Or(s.wf(i.yl,i.yu),E(i.yl,i.yu) if form=='same' else And(s.nan(i.yl),s.nan(i.yu))),Or(s.fin(i.s),s.nan(i.s)),s.fin(i.t))
                def cpost(D,i,o,k=k,nm=nm,form=form,O=O):
                    s=S(D,k); ex=And(s.eq(i.xl,i.e1),s.eq(i.xu,i.e2)); X=(i.xl,i.xu); Y=(i.yl,i.yu)
                    ey=And(s.eq(i.yl,i.e1),s.eq(i.yu,i.e2)) if form=='same' else s.nan(i.yl)
                    if form=='num': Y=(i.s,i.s); ey=s.nan(i.s)
                    if form=='xim': X,Y,ex,ey=Y,X,ey,ex
                    (xl,xu),(yl,yu)=X,Y
                    al={'lt':s.lt(xu,yl),'le':s.le(xu,yl),'gt':s.lt(yu,xl),'ge':s.le(yu,xl),'eq':And(s.eq(xu,yl),s.eq(xl,yu)),'ne':Or(s.lt(xu,yl),s.lt(yu,xl))}
                    no={'lt':al['ge'],'le':al['gt'],'gt':al['le'],'ge':al['lt'],'eq':al['ne'],'ne':al['eq']}
                    lt=Or(s.lt(xl,yl),And(s.eq(xl,yl),s.lt(xu,yu))); eq=And(s.eq(xl,yl),s.eq(xu,yu))
                    lx={'lt':lt,'le':Or(lt,eq),'gt':Not(Or(lt,eq)),'ge':Not(lt),'eq':eq,'ne':Not(eq)}
                    sub=Or(ex,And(Not(ey),s.le(yl,xl),s.le(xu,yu))); sup=Or(ey,And(Not(ex),s.le(xl,yl),s.le(yu,xu))); same=And(sub,sup)
                    st={'lt':And(sub,Not(same)),'le':sub,'gt':And(sup,Not(same)),'ge':sup,'eq':same,'ne':Not(same)}
                    def g():
                        c=[]
                        for j,op in enumerate(O):
                            v=o['r%d'%j]
                            if nm=='set' and form=='num': c.append(v==7); continue
                            if nm=='set': c.append(Ite(st[op],v==1,v==0)); continue
                            if nm=='tribool': w=Ite(al[op],v==1,Ite(no[op],v==0,v==2))
                            elif nm=='default': w=Ite(al[op],v==1,Ite(no[op],v==0,v==7))
                            elif nm=='certain': w=Ite(al[op],v==1,v==0)
                            elif nm=='possible': w=Ite(no[op],v==0,v==1)
                            else: w=Ite(lx[op],v==1,v==0)
                            c.append(Ite(Or(ex,ey),v==7,w))
                        return And(*c)
                    return ret(o,g)
                ts.append(Task('comparison %s/%s/%s'%(nm,form,T),'cmp_%s_%s_%s'%(nm,form,T),ins,[('r%d'%j,'i32') for j in range(len(O))],cpre,cpost,vectors=8,gen=gen(k,form in('mix','xim')),max_paths=20000))
        def rpre(D,i,k=k):
            s=S(D,k)
            return And(sent(s,i),Or(s.wf(i.xl,i.xu),And(s.eq(i.xl,i.e1),s.eq(i.xu,i.e2))),Or(s.wf(i.yl,i.yu),And(s.nan(i.yl),s.nan(i.yu))),s.fin(i.s),s.fin(i.t))
        def rpost(D,i,o,k=k):
            s=S(D,k); ex=And(s.eq(i.xl,i.e1),s.eq(i.xu,i.e2)); ey=s.nan(i.yl); B=lambda f,v:Ite(f,v==1,v==0)
            sub=Or(ex,And(Not(ey),s.le(i.yl,i.xl),s.le(i.xu,i.yu))); sup=Or(ey,And(Not(ex),s.le(i.xl,i.yl),s.le(i.yu,i.xu))); same=And(sub,sup)
            ov=And(Not(ex),Not(ey),s.le(i.xl,i.yu),s.le(i.yl,i.xu))
            def g(): return And(B(ov,o.r0),B(ov,o.r1),B(And(sub,Not(same)),o.r2),B(And(sup,Not(same)),o.r3),B(same,o.r4),B(same,o.r5))
            return ret(o,g)
        ts.append(Task('set relations of two policies/%s'%T,'rel_%s'%T,ins,[('r%d'%j,'i32') for j in range(6)],rpre,rpost,vectors=12,gen=gen(k,True),max_paths=20000))
        def vpre(D,i,k=k):
            s=S(D,k); E=And(s.eq(i.xl,i.e1),s.eq(i.xu,i.e2))
            return And(sent(s,i),Or(s.wf(i.xl,i.xu),E),Or(s.wf(i.yl,i.yu),And(s.nan(i.yl),s.nan(i.yu))),Or(s.fin(i.s),s.nan(i.s)),Or(s.fin(i.t),s.nan(i.t)))
        def vpost(D,i,o,k=k):
            s=S(D,k); is_=lambda j,a,b:And(s.eq(o['l%d'%j],a),s.eq(o['u%d'%j],b)); E=lambda j:is_(j,i.e1,i.e2)
            def g():
                ex=And(s.eq(i.xl,i.e1),s.eq(i.xu,i.e2)); ey=s.nan(i.yl)
                return And(*[Ite(ex,And(s.nan(o['l%d'%j]),s.nan(o['u%d'%j])),is_(j,i.xl,i.xu)) for j in(0,1)],*[Ite(ey,E(j),is_(j,i.yl,i.yu)) for j in(2,3)],E(4),is_(5,i.n,i.p),
                    Ite(s.nan(i.s),E(6),is_(6,i.s,i.s)),Ite(Or(s.nan(i.s),s.nan(i.t),s.lt(i.t,i.s)),E(7),is_(7,i.s,i.t)))
            return ret(o,g)
        ts.append(Task('conversions/%s'%T,'conv_%s'%T,ins,[(c+str(j),k) for j in range(8) for c in 'lu'],vpre,vpost,vectors=12,gen=gen(k),max_paths=20000))
    return ts
def gen(k,mixed=False):
    def g(rng):
        def num(): return F(rng.choice([0,1,-1,2,3,-4,rng.randint(-4000,4000)]),rng.choice([1,1,2,8]))
        e1,e2=[num() for _ in range(2)]; v=num()
        if e1<=e2: e1,e2=e2+1,e1
        eb,sb=FPSORT[k]; MAX=F(2)**(1<<(eb-1))-F(2)**((1<<(eb-1))-sb); p=rng.choice([MAX,'inf']); n=rng.choice([-MAX,'-inf'])
        def itv():
            if rng.random()<.3: return [e1,e2]
            a,b=sorted([num(),num()]); return [a,b]
        sc=lambda:'nan' if rng.random()<.3 else num()
        return itv()+(['nan','nan'] if mixed and rng.random()<.3 else [F(1),F(2)] if mixed else itv())+[sc(),sc(),F(0),0,e1,e2,p,n,v]
    return g
