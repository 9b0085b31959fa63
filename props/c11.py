from spec import *
from ordd import OrdTrig, Contracts
import mpmath, conc
BOUNDS=('every non-empty interval of every magnitude and width, unbounded ones included, float, double and long double, four policies '
 ', all four entry rounding modes; the self-call of cos is followed 2 (quick) or 3 (thorough) deep')
ASSUMPTIONS=['the interval operations used for the argument reduction satisfy their contracts: x - [an enclosure of q*pi] encloses x - q*pi (decided by C01), '
 'fmod(x,[an enclosure of q*pi]) encloses x - n*q*pi for one integer n and is non-negative (decided by C09)',
 'the base functions cos, sin and tan are the real functions rounded in the current direction; pi is known to 40 decimal digits',
 'deeper self-calls of cos are not followed: x - pi after the first reduction is below pi, so a second reduction is the identity up to rounding']
def crange(name,xl,xu):
    """bounds of the range of cos or sin over [xl,xu] as (lo,hi) intervals around the true values: least upper, greatest lower"""
    with mpmath.workprec(400+max([0]+[2*abs(conc.ilog2(abs(conc.val(v)))) for v in(xl,xu) if conc.isnum(v) and conc.val(v)])):
        pi=mpmath.pi; q=lambda v:mpmath.mpf(v.numerator)/v.denominator
        if not conc.isnum(xl) or not conc.isnum(xu): return (F(-1),F(1))
        a,b=q(conc.val(xl)),q(conc.val(xu)); sh=-pi/2 if name=='sin' else 0
        f=lambda v:getattr(mpmath,name)(v)
        fa,fb=f(a),f(b); lo,hi=min(fa,fb),max(fa,fb)
        m=mpmath.floor((b+sh)/pi); n=mpmath.ceil((a+sh)/pi)
        if m>=n:
            if m>n: lo,hi=mpmath.mpf(-1),mpmath.mpf(1)
            elif int(n)%2==0: hi=mpmath.mpf(1)
            else: lo=mpmath.mpf(-1)
        e=F(1,2**300); Fr=lambda v:F(int(mpmath.floor(v*mpmath.mpf(2)**350)),2**350)
        return Fr(lo),Fr(hi)
def pole(xl,xu):
    if not conc.isnum(xl) or not conc.isnum(xu): return True
    with mpmath.workprec(400+2*max(abs(conc.ilog2(abs(conc.val(v)))) if conc.val(v) else 0 for v in(xl,xu))):
        q=lambda v:mpmath.mpf(v.numerator)/v.denominator
        a,b=q(conc.val(xl)),q(conc.val(xu))
        return mpmath.floor(b/mpmath.pi-0.5)>=mpmath.ceil(a/mpmath.pi-0.5)
def cpost(name,i,o):
    lo,hi=o.lo,o.hi
    if 'nan' in(lo,hi): return False
    ge=lambda a,b:a=='inf' or a!='-inf' and conc.val(a)>=b
    le=lambda a,b:a=='-inf' or a!='inf' and conc.val(a)<=b
    e=F(1,2**300)
    if name=='tan':
        if pole(i.xl,i.xu): return lo=='-inf' and hi=='inf'
        if (lo,hi)==('-inf','inf'): return True
        with mpmath.workprec(400+2*max(abs(conc.ilog2(abs(conc.val(v)))) if conc.val(v) else 0 for v in(i.xl,i.xu))):
            t=[]
            for v in(i.xl,i.xu):
                v=conc.val(v); y=mpmath.tan(mpmath.mpf(v.numerator)/v.denominator); t.append(F(int(mpmath.floor(y*mpmath.mpf(2)**350)),2**350))
        return le(lo,t[0]+e) and ge(hi,t[1]-e)
    l,h=crange(name,i.xl,i.xu)
    return le(lo,l+e) and ge(hi,h-e) and ge(lo,-1) and le(hi,1)
PI=F(31415926535897932384626433832795028841971693993751,10**49)
def gen(k):
    C=conc.Conc(); r=lambda v,m='ne':conc.rnd(v,m,*FPSORT[k])
    def pt(rng):
        m=rng.randint(-9,9)*PI/2; return r(m,rng.choice(('dn','up','ne')))
    def g(rng):
        q=rng.random()
        if q<.35:
            a,b=pt(rng),pt(rng); d=F(rng.randint(0,700),256)
            if q<.1: b=r(conc.val(a)+d)
            elif q<.2: a=r(conc.val(b)-d)
            return [a,b] if conc.val(a)<=conc.val(b) else [b,a]
        b=F(rng.randint(-4000,4000),256)
        w=F(rng.choice((0,1,5,100,400,800,1700)),256)*rng.choice((1,1,1,F(1,1000)))
        return [r(b),r(b+w)]
    return g
def tasks(tier):
    ts=[]; deep=tier!='quick'
    for T,k in TYPES:
        for P in('tob','tsb','tos','tss'):
            for fn in('cos','sin','tan'):
                def pre(D,i,k=k): return And(S(D,k).wf(i.xl,i.xu),D.mem(i.xl,i.xu,D.g) if hasattr(D,'g') else True)
                for pl in ((False,True) if fn=='tan' else (False,)):
                    def post(D,i,o,k=k,fn=fn,pl=pl):
                        if D.name=='concrete': return And(ret(o,lambda:cpost(fn,i,o)),o.mode==o.entry)
                        s=S(D,k)
                        def f():
                            a,c,sn,t=D.ang[D.base]
                            if pl: return s.is_(o.lo,o.hi,s.ninf,s.pinf)
                            v={'cos':c,'sin':sn,'tan':t}[fn]
                            r=[D.mem(o.lo,o.hi,v),D.le(o.lo,o.hi)]
                            if fn!='tan': r+=[s.le(s.n(-1),o.lo),s.le(o.hi,s.n(1))]
                            return And(*r)
                        return And(ret(o,f),o.mode==o.entry)
                    ts.append(Task('%s%s/%s/%s'%(fn,' pole' if pl else '',P,T),'%s_%s_%s'%(fn,P,T),xins(k,'xl','xu'),[('lo',k),('hi',k)],pre,post,mkdomain=lambda t,pl=pl:OrdTrig(pl),ext=Contracts(),gen=gen(k),opts={'cut':True,'noexact':True,'recbound':3 if deep else 2},vectors=10 if pl else 30))
    return ts
