from spec import *
from opslist import *
from domains import IntMul
BOUNDS='all bit patterns of the arguments that are well-formed intervals, empty intervals where the policy can represent them, finite numbers, or NaN numbers where the policy looks for them; float, double, long double; basic, no-empty, no-NaN, catch-NaN, catch-NaN over no-empty and strict checking; all four entry rounding modes; pow with the listed exponents; cos, sin, tan and nth_root (degrees 2, 3, 6): the empty interval; loop-free code; the basic, no-empty and default policies over int too, every pair of bounds of magnitude at most 200'
ASSUMPTIONS=['the base functions (libm) round correctly in the current direction, hence keep the order, range and special values of the mathematical function']
TINY={'float':(3,4),'double':(4,6),'x86_fp80':(5,8)}
DIV={'div','divas','part1'}; SC={'adds','sadd','subs','ssub','muls','smul','divs','sdiv','addass','subass','mulass','divass','fmods','sfmod','hulls','shull','widen','mins','smin','maxs','smax','ctor1','asg'}
ST={'shullt','nadd','nsub','nmul','ndiv','ctor','assign'}
II={'add','sub','mul','div','addas','subas','mulas','divas','fmod','part1','part2f','hull','intersect','min','max'}
NOX={'sfmod0','shullt','nadd','nsub','nmul','ndiv','ctor','ctor1','assign','asg','pi','pi2'}|set(CONV)
NUM={'median','width','norm'}
def tasks(tier):
    ts=[]
    PP=('def','ob','ne','cn','nn','cne')
    for T,k in TYPES:
        for P in PP+('tos','tob'):
            if P in PP: L=[n for n in ARITH+CONV]
            else: L=TRANS
            mayempty=P in('ob','cn','nn','tob'); seesnan=P in('ob','ne','cn','cne')
            if tier=='quick' and T!='double' and P in('nn','cne','ne'): continue
            for n in L:
                wk={'cvf':'float','cvd':'double','cvl':'x86_fp80','cvas':'x86_fp80'}.get(n,k)
                ins=[('xl',k),('xu',k),('yl',k),('yu',k),('s',k),('t',k),('w',wk),('n','i32')]
                outs=[('lo',k),('hi',k)]
                hasx=n not in NOX; hasy=n in II; hass=n in SC or n in ST; hast=n in ST; hasw=n in('cvf','cvd','cvl','cvas')
                def pre(D,i,k=k,n=n,wk=wk,P=P,hasx=hasx,hasy=hasy,hass=hass,hast=hast,hasw=hasw,mayempty=mayempty,seesnan=seesnan):
                    s=S(D,k); c=[]
                    def itv(a,b,w):
                        return Or(w,And(s.nan(a),s.nan(b))) if mayempty else w
                    # the operations on numbers only have no empty operand
                    if hasx: c.append(itv(i.xl,i.xu,s.finwf(i.xl,i.xu) if n in('fmod','fmods') else s.wf(i.xl,i.xu)))
                    if n=='sfmod': c[-1]=itv(i.xl,i.xu,And(s.finwf(i.xl,i.xu),s.pos(i.xl)))
                    if hasy: c.append(itv(i.yl,i.yu,And(s.finwf(i.yl,i.yu),s.pos(i.yl)) if n=='fmod' else And(s.wf(i.yl,i.yu),s.neg(i.yl),s.pos(i.yu)) if n in('part2','part2f') else s.wf(i.yl,i.yu)))
                    if n in('part2','part2f'): c+=[s.wf(i.xl,i.xu),s.wf(i.yl,i.yu),Or(s.pos(i.xl),s.neg(i.xu))]
                    for v,h,kk in(('s',hass,k),('t',hast,k),('w',hasw,wk)):
                        if not h: continue
                        z=S(D,kk); f=z.fin(i[v])
                        if v=='s' and n=='fmods': f=And(f,z.pos(i.s))
                        if v=='s' and n=='widen': f=And(f,z.nonneg(i.s))
                        c.append(Or(f,z.nan(i[v])) if seesnan and n not in('widen',) else f)
                    if n in NUM: c.append(s.wf(i.xl,i.xu))
                    if n=='median': c.append(s.finwf(i.xl,i.xu))
                    if n in('bis1','bis2'): c.append(Or(s.nan(i.xl),s.finwf(i.xl,i.xu)))
                    return And(c)
                def post(D,i,o,k=k,n=n,wk=wk,P=P,hasx=hasx,hasy=hasy,hass=hass,hast=hast,hasw=hasw):
                    s=S(D,k)
                    nans=[]; emps=[]
                    if hasx: emps.append(s.emp(i.xl,i.xu))
                    if hasy: emps.append(s.emp(i.yl,i.yu))
                    if hass: nans.append(s.nan(i.s))
                    if hast: nans.append(s.nan(i.t))
                    if hasw: nans.append(S(D,wk).nan(i.w))
                    anynan,anyemp=Or(nans),Or(emps)
                    z=lambda a,b:And(s.isz(a),s.isz(b))
                    # undefined for valid arguments
                    un=False
                    if n in DIV: un=z(i.yl,i.yu)
                    elif n in('divs','divass'): un=s.isz(i.s)
                    elif n in('sdiv','inv','pow0','pown1','pown2'): un=z(i.xl,i.xu)
                    elif n=='ndiv': un=s.isz(i.t)
                    elif n=='sqrt': un=s.neg(i.xu)
                    elif n=='part2f': un=True
                    elif n=='intersect': un=Or(s.lt(i.xu,i.yl),s.lt(i.yu,i.xl))
                    elif n in('ctor','assign'): un=Not(s.le(i.s,i.t))
                    elif n=='log': un=s.nonpos(i.xu)
                    elif n=='acosh': un=s.lt(i.xu,s.n(1))
                    elif n in('asin','acos','atanh'): un=Or(s.lt(i.xu,s.n(-1)),s.lt(s.n(1),i.xl))
                    good=ret(o,lambda:s.le(o.lo,o.hi))
                    if n in('asin','acos'): good=ret(o,lambda:And(Not(s.nan(o.lo)),Not(s.nan(o.hi))))     # order of the bounds: C10
                    if n in NUM: return good
                    E=empties(s,o,'ne' if P in('def','ne','cne','tos') else P)
                    if n=='atanh': good=Or(good,And(Or(s.le(i.xu,s.n(-1)),s.le(s.n(1),i.xl)),E))
                    inv=throws(o,NAN_EXC)
                    # hull ignores an empty or invalid operand as long as the other one is not
                    bad=Or(anynan,anyemp)
                    if n in('hull','hulls','shull','shullt'): bad=And(nans+emps)
                    if n in('pos','copy') : return ret(o,lambda:s.same(o.lo,o.hi,i.xl,i.xu))
                    if P in('cn','cne'):
                        # an invalid number is reported, unless another argument already is empty
                        return Ite(anynan,Or(inv,And(anyemp,E)),Ite(Or(bad,un),E,good))
                    return Ite(Or(bad,un),E,good)
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),ins,outs,pre,post,vectors=6,**({'domain':'tiny','fmt':TINY} if n in('bis1','bis2') else {}),weight=20 if n in('mul','div','fmod','part1') else 1))
    # operations with loops or recursion of their own on a non-empty interval (C08, C11): the empty interval
    for T,k in TYPES:
        for P,L in(('ob',ROOT),('cn',ROOT),('nn',ROOT),('tob',TRIG)):
            for n in L:
                ins=[('xl',k),('xu',k),('yl',k),('yu',k),('s',k),('t',k),('w',k),('n','i32')]
                def pre(D,i,k=k): s=S(D,k); return And(s.nan(i.xl),s.nan(i.xu))
                def post(D,i,o,k=k,P=P): return empties(S(D,k),o,P)
                ts.append(Task('%s of empty/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),ins,[('lo',k),('hi',k)],pre,post,vectors=2,gen=lambda rng:['nan','nan']+[F(1)]*5+[0],opts={'recbound':1,'cut':True}))
    # over int: bounds and numbers of at most R in magnitude (nothing overflows), empties are pairs in the wrong order
    R=200; k='i32'
    L=['add','sub','mul','div','adds','sadd','subs','ssub','muls','smul','divs','sdiv','neg','pos','addas','subas','mulas','divas','addass','subass','mulass','divass','abs','square','inv',
       'pow0','pow1','pow2','pow3','pown1','pown2','part1','part2f','hull','hulls','shull','shullt','intersect','min','max','mins','smin','maxs','smax','nadd','nsub','nmul','ndiv','ctor','ctor1','assign','asg','copy']
    for P in('def','ob','ne'):
        me=P=='ob'
        for n in L:
            hasx=n not in NOX; hasy=n in II; hass=n in SC or n in ST; hast=n in ST
            ins=[('xl',k),('xu',k),('yl',k),('yu',k),('s',k),('t',k),('w',k),('n','i32')]
            def pre(D,i,n=n,hasx=hasx,hasy=hasy,me=me):
                c=[And(v>=-R,v<=R) for v in(i.xl,i.xu,i.yl,i.yu,i.s,i.t)]
                if hasx and (not me or n in('part2','part2f')): c.append(i.xl<=i.xu)
                if hasy and (not me or n in('part2','part2f')): c.append(i.yl<=i.yu)
                if n in('part2','part2f'): c+=[i.yl<0,i.yu>0,Or(i.xl>0,i.xu<0)]
                # a base type without infinity: the divisor must not reach zero (unless it is zero or empty)
                nzr=lambda a,b:Or(a>0,b<0,And(a==0,b==0),a>b)
                if n in('div','divas','part1'): c.append(nzr(i.yl,i.yu))
                if n in('sdiv','inv','pown1','pown2'): c.append(nzr(i.xl,i.xu))
                if n in('part2',): c.append(False)
                return And([x if not isinstance(x,int) else bool(x) for x in c])
            def post(D,i,o,n=n,P=P,hasx=hasx,hasy=hasy):
                s=S(D,k); emps=[]
                if hasx: emps.append(s.emp(i.xl,i.xu))
                if hasy: emps.append(s.emp(i.yl,i.yu))
                z=lambda a,b:And(s.eq(a,0),s.eq(b,0)); un=False
                if n in DIV: un=z(i.yl,i.yu)
                elif n in('divs','divass'): un=s.eq(i.s,0)
                elif n in('sdiv','inv','pow0','pown1','pown2'): un=z(i.xl,i.xu)
                elif n=='ndiv': un=s.eq(i.t,0)
                elif n=='part2f': un=True
                elif n=='intersect': un=Or(s.lt(i.xu,i.yl),s.lt(i.yu,i.xl))
                elif n in('ctor','assign'): un=Not(s.le(i.s,i.t))
                if n in('pos','copy'): return ret(o,lambda:s.same(o.lo,o.hi,i.xl,i.xu))
                bad=Or(emps) if n not in('hull','hulls','shull') else And(emps+([] if hasy else [False]))
                good=ret(o,lambda:s.le(o.lo,o.hi)) if n not in DIV and 'mul' not in n and n not in('divs','divass','sdiv','ndiv','inv','pown1','pown2','part2') else o.kind=='ret'
                return Ite(Or(bad,un),empties(s,o,'ne' if P!='ob' else P),good)
            ts.append(Task('%s/%s/int'%(n,P),'%s_%s_int'%(n,P),ins,[('lo',k),('hi',k)],pre,post,domain='exact',mkdomain=(lambda task:IntMul()) if 'mul' in n else None,vectors=6,gen=lambda rng:[rng.choice([0,0,1,-1,2,rng.randint(-R,R)])&0xffffffff for _ in range(8)],weight=5))
    return ts
