from spec import *
import z3, conc
from ordd import OrdPow
BOUNDS='enclosure of the power of an arbitrary real point: exponents 0..17, 31, 64, 100 (thorough: 1001) and -1..-8, -17 (thorough: -100); that the call returns, for INT_MAX, -INT_MAX and INT_MIN; the algebra of every exponent from -127 to 127, those next to the powers of two and the extreme ones (thorough: -2047 to 2047) in a policy over the integers whose product is a+b-1; inverse relation for 1..8, 100, INT_MAX, every well-formed interval with infinite bounds included; float, double, long double; three policies; all entry rounding modes; exactness in exact arithmetic for powers 0..8'
IMAX=2**31-1
def exps(k):
    """exponents that matter for the k-th power"""
    k=abs(k)
    if k<=10: return range(k+1)
    s={0,1,k}
    for i in range(k.bit_length()):
        s|={1<<i,k>>i,k&((2<<i)-1),(1<<i)*(k>>i)}
    return sorted(x for x in s if x<=k)
def concpow(s,lo,hi,l,u,k):
    """the same on numbers: x^k of the extreme x of [l,u] lies in [lo,hi] (a bound at infinity stands for large x)"""
    num=lambda b:conc.val(b) if conc.isnum(b) else F(10)**6000*(1 if b=='inf' else -1)
    if s.nan(lo) or s.nan(hi): return False
    pts=[num(l),num(u)]
    if pts[0]<=0<=pts[1]: pts.append(F(0))
    for x in pts:
        if x==0 and k<0 or (x.numerator.bit_length()+x.denominator.bit_length())*abs(k)>3000000: continue
        v=x**k
        if lo=='inf' or hi=='-inf': return False
        if conc.isnum(lo) and conc.val(lo)>v: return False
        if conc.isnum(hi) and conc.val(hi)<v: return False
    return True
def tasks(tier):
    ts=[]
    POS=[(str(k),k) for k in list(range(0,18))+[31,64,100,1001]]+[('max',IMAX)]
    NEG=[1,2,3,4,5,6,7,8,17,100]
    for T,k in TYPES:
        for P in('def','sb','ob'):
            def pre(D,i,k=k): return S(D,k).wf(i.xl,i.xu)
            for nm,n in POS+[('m%d'%a,-a) for a in NEG]+[('mmax',-IMAX),('min',-2**31)]:
                if tier=='quick' and P=='ob' and n not in(0,1,2,3,6,-1,-3): continue
                if tier=='quick' and T!='double' and abs(n)>8: continue
                if tier=='quick' and n in(1001,-100): continue
                if tier=='quick' and n<-3 and (T!='double' or P!='sb'): continue
                big=abs(n)>1001
                def post(D,i,o,k=k,n=n,P=P,big=big):
                    s=S(D,k); z0=And(s.isz(i.xl),s.isz(i.xu))
                    if big: return Or(z0,ret(o,lambda:True))
                    if n==0: return Or(z0,ret(o,lambda:s.is_(o.lo,o.hi,s.n(1),s.n(1))))
                    if n==1: return ret(o,lambda:s.is_(o.lo,o.hi,i.xl,i.xu))
                    def g():
                        c=[s.le(o.lo,o.hi)]
                        if n%2==0:
                            c.append(s.nonneg(o.lo))
                            if n>0: c.append(Implies(And(s.nonpos(i.xl),s.nonneg(i.xu)),s.isz(o.lo)))
                        else: c+=[Implies(s.nonneg(i.xl),s.nonneg(o.lo)),Implies(s.nonpos(i.xu),s.nonpos(o.hi))]
                        if isinstance(D,OrdPow):
                            # some real x in X (other than 0 for a negative power) exists, and is arbitrary
                            dom=And(D.inX(i.xl,i.xu),D.gx!=0 if n<0 else True)
                            return Implies(dom,And(D.encl(o.lo,o.hi,n),*c))
                        if D.name=='concrete': c.append(concpow(s,o.lo,o.hi,i.xl,i.xu,n))
                        return And(*c)
                    if n<0:
                        # an exactly zero power has no inverse; underflow of the positive power makes it [0,tiny], which has
                        return Or(z0,ret(o,g))
                    return ret(o,g)
                mk=(lambda task,n=n:OrdPow(exps(n))) if n not in(0,1) and not big else None
                ts.append(Task('pow(%d)/%s/%s'%(n,P,T),'pow_%s_%s_%s'%(nm,P,T),xins(k,'xl','xu'),[('lo',k),('hi',k)],pre,post,mkdomain=mk,weight=abs(n)%64,gen=gen(k),domain='cong' if big else 'ord'))
            for a in NEG+['max']:
                if tier=='quick' and (P=='ob' or a in(5,7,17)): continue
                def rpost(D,i,o,k=k):
                    s=S(D,k); return ret(o,lambda:And(s.same(o.a,o.b2,o.c,o.d),o.e==o.f))
                ts.append(Task('inverse of pow(%s)/%s/%s'%(a,P,T),'rel_%s_%s_%s'%(a,P,T),xins(k,'xl','xu'),[('a',k),('b2',k),('c',k),('d',k),('e','i32'),('f','i32')],pre,rpost,domain='cong',gen=gen(k)))
    # no rounding: the bounds are the extreme powers
    from domains import Real
    for n in range(0,9):
        def epre(D,i,n=n): return And(i.xl<=i.xu,Or(i.xl!=0,i.xu!=0) if n==0 else True) if D.name=='real' else S(D,'double').finwf(i.xl,i.xu)
        def epost(D,i,o,n=n):
            if D.name!='real': return o.kind=='ret'
            def g():
                def pw(x):
                    r=z3.RealVal(1)
                    for _ in range(n): r=r*x
                    return r
                a,c=pw(i.xl),pw(i.xu)
                if n==0: return Or(And(i.xl==0,i.xu==0),And(o.lo==1,o.hi==1))
                if n%2: return And(o.lo==a,o.hi==c)
                has0=And(i.xl<=0,i.xu>=0); far=-i.xl>i.xu
                return And(o.lo==z3.If(has0,0,z3.If(i.xl>0,a,c)),o.hi==z3.If(far,a,c))
            return ret(o,g)
        ts.append(Task('exact pow(%d)'%n,'pow_%d_ex_double'%n,xins('double','xl','xu'),[('lo','double'),('hi','double')],epre,epost,mkdomain=lambda t:Real(exact=True),entry=0,gen=gen('double')))
    # every exponent in a range: the algebra of the powers, in a monoid where the solver can follow it
    W=16 if tier=='quick' else 64
    RANGES=[(a,a+W) for a in range(0,128 if tier=='quick' else 2048,W)]+[(2**j-2,2**j+3) for j in range(8 if tier=='quick' else 12,31)]+[(IMAX-2,IMAX+1)]
    for lo,hi in RANGES:
        for sg in(1,-1):
            a,b=(lo,hi) if sg>0 else (1-hi-(hi>IMAX),1-lo)
            for nm,xl,xu in(('pos',2,3),('neg',-3,-2),('mid',-3,2)):
                if nm=='mid' and sg<0 or tier=='quick' and nm=='neg' and (sg<0 or lo>=32): continue
                ts.append(Task('every power from %d to %d of [%d,%d]'%(a,b-1,xl,xu),'mono_'+nm,[('k','i32')],[('lo','i64'),('hi','i64'),('lo2','i64'),('hi2','i64')],
                    lambda D,i,a=a,b=b:And(i.k>=a,i.k<b),lambda D,i,o,xl=xl,xu=xu:monopost(i.k,xl,xu,o),domain='exact',entry=0,vectors=4,max_paths=20000,gen=lambda rng,a=a,b=b:[rng.randrange(a,b)],weight=2))
    return ts
def monopost(k,xl,xu,o):
    """the exact power in the monoid, and outside it with outward rounding"""
    def g():
        sym=z3.is_expr(k); ite=lambda c,a,b:z3.If(c,a,b) if z3.is_expr(c) else a if c else b
        one=z3.BitVecVal(1,64) if sym else 1
        e=z3.SignExt(32,k) if sym else k
        n=ite(e<0,-e,e); odd=(n&1)==1
        A,B=[n*(abs(x)-1)+one for x in(xl,xu)]                # the n-th powers of |x|
        neg=xu<0
        plo=ite(odd,-A if xl<0 else A,B if neg else 0*one if xl<0 else A)
        phi=ite(odd,-B if neg else B,A if xl<0 else B)
        plo=ite(n==0,one,plo); phi=ite(n==0,one,phi)
        inv=lambda y:ite(y>0,2-y,-2-y)
        lo=ite(e<0,inv(phi),plo); hi=ite(e<0,inv(plo),phi)
        return And(o.lo==lo,o.hi==hi,o.lo2<=lo,o.hi2>=hi)
    return ret(o,g)
def gen(k):
    def g(rng):
        def one():
            r=rng.random()
            if r<.1: return rng.choice([F(0),F(1),F(-1),'inf','-inf'])
            x=F(rng.randint(-4000,4000),1024)
            if r<.2: x*=F(2)**rng.choice([-60,60,40,-100])
            return x
        a,b=one(),one()
        if conc.key(a)>conc.key(b): a,b=b,a
        return [a,b]
    return g
