from spec import *
import mpmath, conc
BOUNDS='all bit patterns of well-formed bounds, and the empty interval where the policy allows one; float, double, long double; keep-upward and mode-switching elementary-function policies, basic and strict checking; all four entry rounding modes; loop-free code'
ASSUMPTIONS=['the base functions (libm) round correctly in the current direction, hence are monotone, odd/even and keep the sign, range and special values of the mathematical function']
with mpmath.workprec(400): PI=F(int(mpmath.floor(mpmath.pi*mpmath.mpf(2)**390)),2**390)
def piup(s,k,m,v):
    """v is an upper bound of m*pi, no wider than the one for double"""
    kk='double' if k=='x86_fp80' else k
    return And(s.le(s.n(conc.rnd(PI*m,'up',*FPSORT[k])),v),s.le(v,s.n(conc.rnd(PI*m,'up',*FPSORT[kk]))))
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('tob','tsb','tos'):
            for f in('exp','log','sinh','tanh','asin','acos','atan','asinh','acosh','atanh','cosh'):
                def pre(D,i,k=k,P=P):
                    s=S(D,k); c=s.wf(i.xl,i.xu)
                    return c if P=='tos' else Or(c,And(s.nan(i.xl),s.nan(i.xu)))
                def post(D,i,o,k=k,P=P,f=f):
                    s=S(D,k); xl,xu=i.xl,i.xu; one,m1,zero=s.n(1),s.n(-1),s.zero
                    D.curk=k
                    dn=lambda x:D.libm(f,'dn',x,k)
                    up=lambda x:D.libm(f,'up',x,k)
                    E=empties(s,o,P)
                    R=lambda lo,hi:ret(o,lambda:s.is_(o.lo,o.hi,lo,hi))
                    if f in('exp','sinh','tanh','atan','asinh'): out,r=False,R(dn(xl),up(xu))
                    elif f=='log': out=s.nonpos(xu); r=R(s.ite(s.pos(xl),dn(xl),s.ninf),up(xu))
                    elif f=='acosh': out=s.lt(xu,one); r=R(s.ite(s.le(xl,one),zero,dn(xl)),up(xu))
                    elif f=='cosh':
                        out=False; z=And(s.nonpos(xl),s.nonneg(xu)); a,b=D.abs(xl),D.abs(xu)
                        r=R(s.ite(z,one,dn(s.mn(a,b))),up(s.mx(a,b)))
                    elif f=='atanh':
                        out=Or(s.lt(xu,m1),s.lt(one,xl))
                        r=R(s.ite(s.le(xl,m1),s.ninf,dn(xl)),s.ite(s.le(one,xu),s.pinf,up(xu)))
                        # a single domain end, where the function is infinite: the empty interval is right as well
                        r=Or(r,And(Or(s.le(xu,m1),s.le(one,xl)),E))
                    elif f=='asin':
                        out=Or(s.lt(xu,m1),s.lt(one,xl))
                        def g(): return And(Ite(s.le(xl,m1),piup(s,k,F(1,2),s.minus(o.lo)),s.eq(o.lo,dn(xl))),Ite(s.le(one,xu),piup(s,k,F(1,2),o.hi),s.eq(o.hi,up(xu))))
                        r=ret(o,g)
                    else:
                        out=Or(s.lt(xu,m1),s.lt(one,xl))
                        def g(): return And(Ite(s.le(one,xu),s.eq(o.lo,zero),s.eq(o.lo,dn(xu))),Ite(s.le(xl,m1),piup(s,k,1,o.hi),s.eq(o.hi,up(xl))))
                        r=ret(o,g)
                    return Ite(Or(s.emp(xl,xu),out),E,r)
                ts.append(Task('%s/%s/%s'%(f,P,T),'%s_%s_%s'%(f,P,T),xins(k,'xl','xu'),[('lo',k),('hi',k)],pre,post))
    return ts
