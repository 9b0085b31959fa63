from spec import *
import z3, conc, mpmath, c06
from c05 import sq
from ordd import OrdPow
BOUNDS='all bit patterns of well-formed bounds and all finite scalars; every choice of bounds the rounding functions may return (each call returns an arbitrary number at or outside the directed result of the hardware, infinities included; for pow: finite, and of the same sign); basic checking; float, double, long double; all four entry rounding modes; loop-free code except pow (exponents 2, 3, 6, -1, -2)'
ASSUMPTIONS=['the base functions (libm) round correctly in the current direction']
NATIVE_CXX='clang++-18'     # the order in which the arbitrary bounds are consumed depends on the order of evaluation of arguments
QS=tuple('q%d'%j for j in range(8))
ALL=('xl','xu','yl','yu','s','t')+QS
class SE(S):
    """bounds that contain those of the specification"""
    def is_(s,ol,ou,l,u): return And(s.le(ol,l),s.le(u,ou))
def SE_(D,k):
    s=object.__new__(SE); s.D=D; s.k=k; D.curk=k; return s
def piin(s,k,m,v):
    with mpmath.workprec(400): PI=F(int(mpmath.floor(mpmath.pi*mpmath.mpf(2)**390)),2**390)
    return s.le(s.n(conc.rnd(PI*m,'up',*FPSORT[k])),v)
def tasks(tier):
    ts=[]
    A=lambda a,b,c,d:lambda s,i:(s.add('dn',i[a],i[c]),s.add('up',i[b],i[d]))
    B=lambda a,b,c,d:lambda s,i:(s.sub('dn',i[a],i[d]),s.sub('up',i[b],i[c]))
    M=lambda a,b,c,d:lambda s,i:s.imul(i[a],i[b],i[c],i[d])
    D4=lambda a,b,c,d:('div',a,b,c,d)
    X,Y,Sx,Tx=('xl','xu'),('yl','yu'),('s','s'),('t','t')
    ops={}
    for nm,f in(('add',A),('sub',B),('mul',M),('div',D4)):
        ops[nm]=(f(*X,*Y),X+Y); ops[nm+'as']=ops[nm]
        ops[nm+'s']=(f(*X,*Sx),X+('s',)); ops[nm+'ass']=ops[nm+'s']
        ops['s'+nm]=(f(*Sx,*X),X+('s',)); ops['n'+nm]=(f(*Sx,*Tx),('s','t'))
    ops['square']=(lambda s,i:sq(s,i.xl,i.xu),X)
    ops['inv']=(('div',1,1,'xl','xu'),X)
    ops['widen']=(lambda s,i:(s.sub('dn',i.xl,i.s),s.add('up',i.xu,i.s)),X+('s',))
    ops['sqrt']=('sqrt',X)
    ops['both']=('both',X+Y)
    ops['width']=('width',X)
    for f in('exp','log','sinh','cosh','tanh','asin','acos','atan','asinh','acosh','atanh'): ops[f]=(('f',f),X)
    for T,k in TYPES:
        for op,(f,use) in ops.items():
            def pre(D,i,k=k,use=use,op=op):
                s=S(D,k); c=And(*[Not(s.nan(i[q])) for q in QS])
                if 'xl' in use: c=And(c,s.wf(i.xl,i.xu))
                if 'yl' in use: c=And(c,s.wf(i.yl,i.yu))
                if 's' in use: c=And(c,s.fin(i.s))
                if 't' in use: c=And(c,s.fin(i.t))
                if op=='widen': c=And(c,s.nonneg(i.s))
                return c
            def post(D,i,o,k=k,f=f,op=op):
                s=SE_(D,k); P='lo'
                E=empties(s,o,P)
                if callable(f): return ret(o,lambda:s.is_(o.lo,o.hi,*f(s,i)))
                if f=='width': return ret(o,lambda:s.le(s.sub('up',i.xu,i.xl),o.hi))
                if f=='sqrt':
                    l=s.ite(s.pos(i.xl),i.xl,s.zero)
                    return Ite(s.neg(i.xu),E,ret(o,lambda:s.is_(o.lo,o.hi,s.sqrt('dn',l),s.sqrt('up',s.mx(i.xu,s.zero)))))
                if f[0]=='div':
                    a,b,c,d=[s.n(1) if v==1 else i[v] for v in f[1:]]
                    return Ite(And(s.isz(c),s.isz(d)),E,ret(o,lambda:encdiv(s,o.lo,o.hi,a,b,c,d)))
                if f=='both':
                    a,b,c,d=i.xl,i.xu,i.yl,i.yu
                    def g():
                        xp=s.pos(b); two=o.b!=0
                        up,dn=s.ite(xp,s.div('up',a,c),s.div('up',b,d)),s.ite(xp,s.div('dn',a,d),s.div('dn',b,c))
                        split=And(s.neg(c),s.pos(d),Or(s.nonneg(a),s.nonpos(b)))
                        # two pieces, each containing its half of the quotients, or one with all of them
                        return Ite(two,And(split,s.eq(o.lo,s.ninf),s.le(up,o.hi),s.le(o.lo2,dn),s.eq(o.hi2,s.pinf)),encdiv(s,o.lo,o.hi,a,b,c,d))
                    return Ite(And(s.isz(c),s.isz(d)),E,ret(o,g))
                fn=f[1]; xl,xu=i.xl,i.xu; one,m1=s.n(1),s.n(-1)
                D.curk=k
                dn=lambda x:D.libm(fn,'dn',x,k)
                up=lambda x:D.libm(fn,'up',x,k)
                R=lambda lo,hi:ret(o,lambda:s.is_(o.lo,o.hi,lo,hi))
                out=False
                if fn in('exp','sinh','tanh','atan','asinh'): r=R(dn(xl),up(xu))
                elif fn=='log': out=s.nonpos(xu); r=R(s.ite(s.pos(xl),dn(xl),s.ninf),up(xu))
                elif fn=='acosh': out=s.lt(xu,one); r=R(s.ite(s.le(xl,one),s.zero,dn(xl)),up(xu))
                elif fn=='cosh':
                    z=And(s.nonpos(xl),s.nonneg(xu)); a,b=D.abs(xl),D.abs(xu)
                    r=R(s.ite(z,one,dn(s.mn(a,b))),up(s.mx(a,b)))
                elif fn=='atanh':
                    out=Or(s.lt(xu,m1),s.lt(one,xl))
                    r=R(s.ite(s.le(xl,m1),s.ninf,dn(xl)),s.ite(s.le(one,xu),s.pinf,up(xu)))
                    r=Or(r,And(Or(s.le(xu,m1),s.le(one,xl)),E))
                elif fn=='asin':
                    out=Or(s.lt(xu,m1),s.lt(one,xl))
                    r=ret(o,lambda:And(Ite(s.le(xl,m1),piin(s,k,F(1,2),s.minus(o.lo)),s.le(o.lo,dn(xl))),Ite(s.le(one,xu),piin(s,k,F(1,2),o.hi),s.le(up(xu),o.hi))))
                else:
                    out=Or(s.lt(xu,m1),s.lt(one,xl))
                    r=ret(o,lambda:And(Ite(s.le(one,xu),s.le(o.lo,s.zero),s.le(o.lo,dn(xu))),Ite(s.le(xl,m1),piin(s,k,1,o.hi),s.le(up(xl),o.hi))))
                return Ite(out,E,r)
            ts.append(Task('%s/%s'%(op,T),'%s_lo_%s'%(op,T),xins(k,*ALL),[('lo',k),('hi',k)]+([('lo2',k),('hi2',k),('b','i8')] if op=='both' else []),pre,post,weight=len(use)))
        for nm,n in(('pow2',2),('pow3',3),('pow6',6),('pown1',-1),('pown2',-2)):
            if tier=='quick' and n in(6,-2): continue
            def pre(D,i,k=k):
                s=S(D,k); return And(s.wf(i.xl,i.xu),*[s.fin(i[q]) for q in QS])
            def post(D,i,o,k=k,n=n):
                s=S(D,k)
                def g():
                    if isinstance(D,OrdPow): return Implies(And(D.inX(i.xl,i.xu),D.gx!=0 if n<0 else True),D.encl(o.lo,o.hi,n))
                    return c06.concpow(s,o.lo,o.hi,i.xl,i.xu,n) if D.name=='concrete' else s.le(o.lo,o.hi)
                z0=And(s.isz(i.xl),s.isz(i.xu))
                return Or(z0,ret(o,g)) if n<0 else ret(o,g)
            ts.append(Task('%s/%s'%(nm,T),'%s_ke_%s'%(nm,T),xins(k,*ALL),[('lo',k),('hi',k)],pre,post,mkdomain=lambda task,n=n:OrdPow(c06.exps(n)),weight=6))
    return ts
def encdiv(s,lo,hi,xl,xu,yl,yu):
    """[lo,hi] contains the quotients of X by the elements of Y other than zero"""
    xz=And(s.isz(xl),s.isz(xu))
    nz=Or(s.pos(yl),s.neg(yu)); strict=And(s.neg(yl),s.pos(yu))
    ql,qu=s.idiv_nz(xl,xu,yl,yu)
    p=s.pos(yu)
    a=s.ite(p,xl,s.minus(xu)); b=s.ite(p,xu,s.minus(xl)); d=s.ite(p,yu,s.minus(yl))
    whole=s.is_(lo,hi,s.ninf,s.pinf)
    tight=Ite(xz,s.is_(lo,hi,s.zero,s.zero),
          Ite(s.nonneg(a),s.is_(lo,hi,s.div('dn',a,d),s.pinf),
          Ite(s.nonpos(b),s.is_(lo,hi,s.ninf,s.div('up',b,d)),whole)))
    return Ite(nz,s.is_(lo,hi,ql,qu),Ite(strict,Ite(xz,s.is_(lo,hi,s.zero,s.zero),whole),tight))
