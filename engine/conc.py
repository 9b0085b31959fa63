"""Concrete IEEE arithmetic on exact rationals: the oracle used to judge native replays, and the domain used to
cross-validate the executor against the compiled code.  Values: 'nan','inf','-inf','-0' or Fraction."""
from fractions import Fraction
import struct, math
from domains import FPSORT, parse_fp_text, Unsupported
try:
    import mpmath
except Exception: mpmath=None
F=Fraction
def sgn(x):
    """sign bit"""
    if x in('-0','-inf'): return 1
    if x in('nan','inf'): return 0
    return 1 if x<0 else 0
def isnum(x): return not isinstance(x,str) or x=='-0'
def val(x): return F(0) if x=='-0' else x
def ilog2(x):
    """floor(log2 x), x>0"""
    n=x.numerator.bit_length()-x.denominator.bit_length()
    if F(2)**n>x: n-=1
    elif F(2)**(n+1)<=x: n+=1
    return n
def rnd(x,rm,eb,sb,zsign=None):
    """round the rational x; zsign: sign of an exact zero"""
    if x==0: return '-0' if zsign else F(0)
    emax=2**(eb-1)-1; emin=1-emax
    a=abs(x); neg=x<0
    e=max(ilog2(a),emin)
    q=F(2)**(e-(sb-1))
    k=a/q; n=k.numerator//k.denominator; r=k-n
    up={'ne':r>F(1,2) or (r==F(1,2) and n&1),'rz':False,'up':(not neg) and r>0,'dn':neg and r>0}[rm]
    if up: n+=1
    y=n*q
    if y>= F(2)**(emax+1):
        if rm=='ne' or (rm=='up' and not neg) or (rm=='dn' and neg): return '-inf' if neg else 'inf'
        y=(2-F(2)**(1-sb))*F(2)**emax
    if y==0: return '-0' if neg else F(0)
    return -y if neg else y
def neg(a):
    if isinstance(a,str): return {'nan':'nan','inf':'-inf','-inf':'inf','-0':F(0)}[a]
    return '-0' if a==0 else -a
def lt(a,b):
    if a=='nan' or b=='nan': return False
    return key(a)<key(b)
def key(a):
    if a=='inf': return (1,0)
    if a=='-inf': return (-1,0)
    return (0,val(a))
def eqv(a,b): return a!='nan' and b!='nan' and key(a)==key(b)
class NaNBits(str):
    """a NaN made from a bit pattern (control words kept in floating-point variables)"""
    def __new__(cls,s,bits): r=str.__new__(cls,s); r.bits=bits; return r
class Conc:
    name='concrete'; native=True
    def __init__(self,fmt=None):
        self.fmt=dict(FPSORT)
        if fmt: self.fmt.update(fmt)
        self.native=fmt is None
        self.libm_impl=None; self.reset(); self.mode=None
    def reset(self): self.cons=[]; self.apps=[]
    def const(self,k,text): return self.num(k,parse_fp_text(k,text))
    def num(self,k,v):
        if isinstance(v,str): return v
        return rnd(F(v),'ne',*self.fmt[k])
    def nan(self,k): return 'nan'
    def neg(self,a): return neg(a)
    def abs(self,a): return neg(a) if sgn(a) else a
    def R(self,x,rm,k,z=None): return rnd(x,rm,*self.fmt[k],zsign=z)
    def binop(self,op,rm,a,b,k=None):
        k=k or self.curk
        if a=='nan' or b=='nan': return 'nan'
        if op=='sub': op='add'; b=neg(b)
        if op=='add':
            ia,ib=a in('inf','-inf'),b in('inf','-inf')
            if ia and ib: return a if a==b else 'nan'
            if ia: return a
            if ib: return b
            x=val(a)+val(b)
            if x==0:
                if sgn(a)==sgn(b) and val(a)==0: return a
                return '-0' if rm=='dn' else F(0)
            return self.R(x,rm,k)
        s=sgn(a)^sgn(b); ia,ib=a in('inf','-inf'),b in('inf','-inf')
        if op=='mul':
            if ia or ib:
                if (not ia and val(a)==0) or (not ib and val(b)==0): return 'nan'
                return '-inf' if s else 'inf'
            x=val(a)*val(b)
            return self.R(x,rm,k,s)
        if op=='div':
            if ia: return 'nan' if ib else ('-inf' if s else 'inf')
            if ib: return '-0' if s else F(0)
            if val(b)==0: return 'nan' if val(a)==0 else ('-inf' if s else 'inf')
            return self.R(val(a)/val(b),rm,k,s)
        raise Unsupported(op)
    def fma(self,rm,a,b,c): raise Unsupported('fma')
    def sqrt(self,rm,a,k=None):
        k=k or self.curk
        if a=='nan' or a=='inf' or (isnum(a) and val(a)==0): return a
        if sgn(a): return 'nan'
        eb,sb=self.fmt[k]
        # integer square root with enough bits
        sc=4*(2**(eb-1)+sb+4) if eb<=8 else None
        n,d=a.numerator,a.denominator
        e=ilog2(a); sh=2*(sb+4)-e
        if sh&1: sh+=1
        m=a*F(2)**sh; i=m.numerator//m.denominator; r=math.isqrt(i)
        exact = (F(r)*r==m)
        y=F(r)/F(2)**(sh//2)
        if not exact: y+=F(1,2)/F(2)**(sh//2)
        return self.R(y,rm,k)
    def rint(self,rm,a):
        if not isnum(a) or a=='-0': return a
        f=a.numerator//a.denominator; r=a-f
        if r==0: return a
        if rm=='dn': n=f
        elif rm=='up': n=f+1
        elif rm=='rz': n=f if a>0 else f+1
        else: n=f+1 if (r>F(1,2) or (r==F(1,2) and f&1)) else f
        if n==0: return '-0' if a<0 else F(0)
        return F(n)
    def cvt(self,rm,a,frm,to):
        if isnum(a): return self.R(val(a),rm,to,sgn(a))
        return a
    def from_int(self,rm,v,width,signed,to):
        if signed and v>=1<<(width-1): v-=1<<width
        return self.R(F(v),rm,to)
    def to_int(self,a,w,signed):
        if not isnum(a): raise Unsupported('fp to int of non finite')
        a=val(a); n=int(a)
        return n&((1<<w)-1)
    def cmp(self,p,a,b):
        if p in('true','false'): return p=='true'
        un=a=='nan' or b=='nan'
        if p=='ord': return not un
        if p=='uno': return un
        if un: return p[0]=='u'
        x,y=key(a),key(b)
        return {'eq':x==y,'ne':x!=y,'gt':x>y,'ge':x>=y,'lt':x<y,'le':x<=y}[p[1:]]
    def isnan(self,a): return a=='nan'
    def isinf(self,a): return a in('inf','-inf')
    def fpclass(self,a,mask):
        if a=='nan': return bool(mask&3)
        if a=='-inf': return bool(mask&4)
        if a=='inf': return bool(mask&512)
        if a=='-0': return bool(mask&32)
        if a==0: return bool(mask&64)
        if a<0: return bool(mask&24)
        return bool(mask&384)
    def signbit(self,a): return bool(sgn(a))
    def bits(self,a,k): return a.bits if isinstance(a,NaNBits) else int.from_bytes(self.encode(a,k),'little')
    def from_bits(self,v,k):
        r=self.decode(v.to_bytes({'float':4,'double':8,'x86_fp80':10}[k],'little'),k)
        return NaNBits('nan',v) if r=='nan' else r
    def ite(self,c,a,b): return a if c else b
    def lt(self,a,b): return lt(a,b)
    def le(self,a,b): return lt(a,b) or eqv(a,b)
    def eq(self,a,b): return eqv(a,b)
    def same(self,a,b): return eqv(a,b) or (a=='nan' and b=='nan')
    def libm(self,name,rm,a,k): return libm_cr(name,rm,a,*self.fmt[k])
    # ---- machine representation
    def encode(self,a,k):
        eb,sb=FPSORT[k]; bias=2**(eb-1)-1
        s=sgn(a); x87=k=='x86_fp80'
        if a=='nan': e,m=2**eb-1,(1<<(sb-2))
        elif a in('inf','-inf'): e,m=2**eb-1,0
        else:
            x=abs(val(a))
            if x==0: e,m=0,0
            else:
                ex=ilog2(x)
                if ex<1-bias: e=0; m=x/F(2)**(1-bias-(sb-1))
                else: e=ex+bias; m=x/F(2)**(ex-(sb-1))-(1<<(sb-1))
                assert m.denominator==1,('not representable',a,k); m=int(m)
        if x87:
            full=m|((1<<63) if e!=0 else 0)
            return ((s<<79)|(e<<64)|full).to_bytes(10,'little')
        return ((s<<(eb+sb-1))|(e<<(sb-1))|m).to_bytes((eb+sb)//8,'little')
    def decode(self,b,k):
        eb,sb=FPSORT[k]; bias=2**(eb-1)-1
        v=int.from_bytes(b,'little')
        if k=='x86_fp80':
            s=v>>79&1; e=v>>64&0x7fff; m=v&((1<<64)-1)
            if e==0x7fff: return 'nan' if m<<1&((1<<64)-1) else ('-inf' if s else 'inf')
            if m==0: return '-0' if s else F(0)
            x=F(m)*F(2)**((e or 1)-bias-63)
            return -x if s else x
        s=v>>(eb+sb-1)&1; e=v>>(sb-1)&(2**eb-1); m=v&((1<<(sb-1))-1)
        if e==2**eb-1: return 'nan' if m else ('-inf' if s else 'inf')
        if e==0: x=F(m)*F(2)**(1-bias-(sb-1))
        else: x=F(m|(1<<(sb-1)))*F(2)**(e-bias-(sb-1))
        if x==0: return '-0' if s else F(0)
        return -x if s else x
INFLIM={'exp':('inf',F(0)),'log':('inf','nan'),'sinh':('inf','-inf'),'cosh':('inf','inf'),'tanh':(F(1),F(-1)),'asinh':('inf','-inf'),'acosh':('inf','nan'),
        'atanh':('nan','nan'),'asin':('nan','nan'),'acos':('nan','nan'),'sin':('nan','nan'),'cos':('nan','nan'),'tan':('nan','nan')}
EXACT0={'exp':1,'cosh':1,'cos':1}
def libm_cr(name,rm,a,eb,sb):
    """correctly rounded elementary function in the requested direction"""
    if a=='nan': return 'nan'
    if a in('inf','-inf'):
        if name=='atan':
            with mpmath.workprec(300): return rnd(_mpf(mpmath.pi/2)*(1 if a=='inf' else -1),rm,eb,sb)
        return INFLIM[name][0 if a=='inf' else 1]
    x=val(a)
    if x==0:
        if name in EXACT0: return F(1)
        if name in('sin','tan','asin','atan','sinh','tanh','asinh','atanh'): return a
    if name=='log':
        if x==0: return '-inf'
        if x<0: return 'nan'
        if x==1: return F(0)
    if name=='acosh':
        if x<1: return 'nan'
        if x==1: return F(0)
    if name in('asin','acos','atanh') and abs(x)>1: return 'nan'
    if name=='atanh' and abs(x)==1: return 'inf' if x>0 else '-inf'
    if name=='acos' and x==1: return F(0)
    if name in('exp','sinh','cosh') and abs(x)>20000:
        if name=='exp' and x<0: return rnd(F(1,2**40000),rm,eb,sb)
        big=F(2)**40000
        if name=='sinh' and x<0: big=-big
        return rnd(big,rm,eb,sb)
    prec=sb*2+80+max(0,abs(ilog2(abs(x)))*2 if x else 0)
    with mpmath.workprec(prec):
        y=getattr(mpmath,name if name not in('log',) else 'log')(mpmath.mpf(x.numerator)/mpmath.mpf(x.denominator))
        v=_mpf(y)
    return rnd(v,rm,eb,sb)
def _mpf(y):
    s,m,e,b=y._mpf_
    v=F(int(m))*F(2)**int(e)
    return -v if s else v
