"""Value domains for the symbolic executor.

Exact  : every floating-point operation is the IEEE operation of the z3 FloatingPoint theory, either at the
         native width of the C++ type or with the type replaced by a small IEEE format ("tiny").
Kernel : native width; comparisons, negation, conversions, rounding to integral are exact, while + - * / sqrt
         and libm calls are introduced as fresh numbers constrained by instantiated IEEE lemmas
         (directed rounding is monotone, symmetric, exact on identities, ...).  A sound over-approximation.
Real   : finite values are mathematical reals; a rounded operation returns a fresh real constrained by the
         directed rounding contract with respect to every representable number in play.  Over-approximation.
"""
import z3, struct
from fractions import Fraction

FPSORT={'float':(8,24),'double':(11,53),'x86_fp80':(15,64),'half':(5,11)}
RM={'ne':z3.RNE(),'dn':z3.RTN(),'up':z3.RTP(),'rz':z3.RTZ()}
FLIP={'dn':'up','up':'dn','ne':'ne','rz':'rz'}

class Unsupported(Exception): pass

def parse_fp_text(kind,text):
    """LLVM constant text -> ('nan'|'inf'|'-inf'|'-0', None) or Fraction"""
    if text.startswith('0xK'):
        v=int(text[3:],16); sgn=v>>79; e=(v>>64)&0x7fff; m=v&((1<<64)-1)
        if e==0x7fff: return ('nan' if (m<<1)&((1<<64)-1) else ('-inf' if sgn else 'inf'))
        if m==0: return '-0' if sgn else Fraction(0)
        f=Fraction(m)*Fraction(2)**((e if e else 1)-16383-63)
        return -f if sgn else f
    if text.startswith('0x'):
        v=int(text[2:],16); d=struct.unpack('<d',struct.pack('<Q',v))[0]
    else: d=float(text)
    import math
    if math.isnan(d): return 'nan'
    if math.isinf(d): return 'inf' if d>0 else '-inf'
    if d==0: return '-0' if math.copysign(1,d)<0 else Fraction(0)
    return Fraction(d)

def fp_of_frac(v,sort,rm=None):
    if v=='nan': return z3.fpNaN(sort)
    if v=='inf': return z3.fpPlusInfinity(sort)
    if v=='-inf': return z3.fpMinusInfinity(sort)
    if v=='-0': return z3.fpMinusZero(sort)
    v=Fraction(v)
    if v==0: return z3.fpPlusZero(sort)
    r=z3.simplify(z3.fpRealToFP(rm if rm is not None else z3.RNE(), z3.Q(v.numerator,v.denominator), sort))
    return r

def is_app(e,k): return z3.is_app(e) and e.decl().kind()==k
def fneg(a):
    if is_app(a,z3.Z3_OP_FPA_NEG): return a.arg(0)
    r=z3.fpNeg(a)
    return z3.simplify(r) if z3.is_fp_value(a) else r

def fp_to_py(v):
    """concrete z3 FP numeral -> 'nan'/'inf'/'-inf'/'-0'/Fraction"""
    v=z3.simplify(v)
    if not z3.is_fp_value(v): raise Unsupported('not a concrete fp value: %s'%v)
    if v.isNaN(): return 'nan'
    if v.isInf(): return '-inf' if v.isNegative() else 'inf'
    if v.isZero(): return '-0' if v.isNegative() else Fraction(0)
    s=v.sort(); eb,sb=s.ebits(),s.sbits(); bias=2**(eb-1)-1
    sig=v.significand_as_long(); ex=v.exponent_as_long(True)
    if ex==0: f=Fraction(sig)*Fraction(2)**(1-bias-(sb-1))
    else: f=Fraction(sig+(1<<(sb-1)))*Fraction(2)**(ex-bias-(sb-1))
    return -f if v.isNegative() else f

PY_CMP={'eq':lambda a,b:a==b}

class Domain:
    name='?'
    def __init__(self): self.reset()
    def reset(self):
        self.cons=[]      # side constraints of the current path
        self.k=0
        self.apps=[]
        self.cache={}
    def fresh_name(self,p): self.k+=1; return '%s!%d'%(p,self.k)
    def new_solver(self,timeout_ms):
        s=z3.SolverFor('QF_FP'); s.set('timeout',timeout_ms); return s

# -------------------------------------------------------------------------------------------------
class Exact(Domain):
    name='exact'
    def __init__(self,fmt=None,concrete=False):
        """fmt: dict type-> (eb,sb) replacing the native formats"""
        self.fmt=dict(FPSORT); 
        if fmt: self.fmt.update(fmt)
        self.native = fmt is None
        self.sorts={k:z3.FPSort(*v) for k,v in self.fmt.items()}
        self.libm_impl=None
        super().__init__()
    def describe(self):
        return 'exact IEEE semantics, '+', '.join('%s=(%d,%d)'%(k,*v) for k,v in self.fmt.items() if k!='half')
    def sort(self,k): return self.sorts[k]
    def const(self,k,text): return fp_of_frac(parse_fp_text(k,text),self.sorts[k])
    def num(self,k,v): return fp_of_frac(v,self.sorts[k])
    def fresh(self,k,name): return z3.FP(name,self.sorts[k])
    def nan(self,k): return z3.fpNaN(self.sorts[k])
    def _rm(self,rm): return RM[rm]
    def _s(self,r,*a):
        for x in a:
            if not z3.is_fp_value(x): return r
        return z3.simplify(r)
    def neg(self,a): return fneg(a)
    def abs(self,a): return self._s(z3.fpAbs(a),a)
    def binop(self,op,rm,a,b):
        m=RM[rm]
        if op=='add': r=z3.fpAdd(m,a,b)
        elif op=='sub': r=z3.fpSub(m,a,b)
        elif op=='mul': r=z3.fpMul(m,a,b)
        elif op=='div': r=z3.fpDiv(m,a,b)
        else: raise Unsupported('fp op '+op)
        return self._s(r,a,b)
    def fma(self,rm,a,b,c): return self._s(z3.fpFMA(RM[rm],a,b,c),a,b,c)
    def sqrt(self,rm,a): return self._s(z3.fpSqrt(RM[rm],a),a)
    def rint(self,rm,a): return self._s(z3.fpRoundToIntegral(RM[rm],a),a)
    def cvt(self,rm,a,frm,to):
        s=self.sorts[to]
        if a.sort()==s: return a
        return self._s(z3.fpFPToFP(RM[rm],a,s),a)
    def from_int(self,rm,v,width,signed,to):
        if isinstance(v,int):
            if signed and v>=1<<(width-1): v-=1<<width
            return fp_of_frac(Fraction(v),self.sorts[to],RM[rm])
        if z3.is_bool(v): v=z3.If(v,z3.BitVecVal(1,width),z3.BitVecVal(0,width))
        return (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RM[rm],v,self.sorts[to])
    def to_int(self,a,width,signed):
        r=(z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(),a,z3.BitVecSort(width))
        r=z3.simplify(r) if z3.is_fp_value(a) else r
        return r.as_long() if z3.is_bv_value(r) else r
    def cmp(self,pred,a,b):
        p=pred
        if p=='true': return True
        if p=='false': return False
        base={'oeq':z3.fpEQ,'ogt':z3.fpGT,'oge':z3.fpGEQ,'olt':z3.fpLT,'ole':z3.fpLEQ}
        if p in base: r=base[p](a,b)
        elif p=='one': r=z3.Or(z3.fpLT(a,b),z3.fpGT(a,b))
        elif p=='ord': r=z3.Not(z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b)))
        elif p=='uno': r=z3.fpIsNaN(a) if a.eq(b) else z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
        elif p=='une': r=z3.fpIsNaN(a) if a.eq(b) else z3.Not(z3.fpEQ(a,b))
        elif p=='ueq': r=z3.Not(z3.Or(z3.fpLT(a,b),z3.fpGT(a,b)))
        elif p=='ugt': r=z3.Not(z3.fpLEQ(a,b))
        elif p=='uge': r=z3.Not(z3.fpLT(a,b))
        elif p=='ult': r=z3.Not(z3.fpGEQ(a,b))
        elif p=='ule': r=z3.Not(z3.fpGT(a,b))
        else: raise Unsupported('fcmp '+p)
        if z3.is_fp_value(a) and z3.is_fp_value(b): r=z3.simplify(r)
        return r
    def signbit(self,a): return self._b(z3.fpIsNegative(a),a)
    def isnan(self,a): return self._b(z3.fpIsNaN(a),a)
    def isinf(self,a): return self._b(z3.fpIsInf(a),a)
    def _b(self,r,a): return z3.simplify(r) if z3.is_fp_value(a) else r
    def fpclass(self,a,mask):
        c=[]
        pos,neg=z3.fpIsPositive(a),z3.fpIsNegative(a)
        if mask&3: c.append(z3.fpIsNaN(a))
        if mask&4: c.append(z3.And(neg,z3.fpIsInf(a)))
        if mask&8: c.append(z3.And(neg,z3.fpIsNormal(a)))
        if mask&16: c.append(z3.And(neg,z3.fpIsSubnormal(a)))
        if mask&32: c.append(z3.And(neg,z3.fpIsZero(a)))
        if mask&64: c.append(z3.And(pos,z3.fpIsZero(a)))
        if mask&128: c.append(z3.And(pos,z3.fpIsSubnormal(a)))
        if mask&256: c.append(z3.And(pos,z3.fpIsNormal(a)))
        if mask&512: c.append(z3.And(pos,z3.fpIsInf(a)))
        return z3.simplify(z3.Or(c)) if z3.is_fp_value(a) else z3.Or(c)
    def bits(self,a,k):
        if not self.native or k=='x86_fp80': raise Unsupported('bit pattern of '+k)
        r=z3.fpToIEEEBV(a)
        r=z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r
    def from_bits(self,v,k):
        if not self.native or k=='x86_fp80': raise Unsupported('value from bit pattern of '+k)
        s=self.sorts[k]
        if isinstance(v,int): v=z3.BitVecVal(v,s.ebits()+s.sbits())
        return z3.simplify(z3.fpBVToFP(v,s))
    def libm(self,name,rm,a,k):
        if self.libm_impl is not None: return self.libm_impl(self,name,rm,a,k)
        raise Unsupported('libm '+name+' in exact domain')
    def ite(self,c,a,b):
        if c is True: return a
        if c is False: return b
        return z3.If(c,a,b)
    # order helpers for specs
    def lt(self,a,b): return self.cmp('olt',a,b)
    def le(self,a,b): return self.cmp('ole',a,b)
    def eq(self,a,b): return self.cmp('oeq',a,b)   # IEEE equality: -0 == +0
    def same(self,a,b):  # equal numbers or both NaN
        return z3.Or(self.cmp('oeq',a,b),z3.And(z3.fpIsNaN(a),z3.fpIsNaN(b)))
    def ident(self,a,b): return a==b               # identical incl. sign of zero (z3 '=' on FP: NaN=NaN)

# -------------------------------------------------------------------------------------------------
class Kernel(Exact):
    """native width, arithmetic kernels abstracted by lemmas"""
    name='kernel'
    def __init__(self,exact_ops=()):
        self.exact_ops=set(exact_ops)
        self.facts={}      # (op,rm,sortkey,args as strings) -> ground value, survives reset: CEGAR knowledge
        self.factlist=[]
        super().__init__()
    def describe(self): return 'native width, rounding kernels + - * / sqrt libm abstracted by instantiated IEEE lemmas'
    def reset(self):
        super().reset()
        self.index={}
    def Fin(self,a): return z3.Not(z3.Or(z3.fpIsInf(a),z3.fpIsNaN(a)))
    # an application: op, rm, args (nonneg for mul/div), result var
    def app(self,op,rm,args,sort):
        key=(op,rm,tuple(a.get_id() for a in args))
        if op in('mul','addc') and key not in self.index:
            key2=(op,rm,tuple(a.get_id() for a in reversed(args)))
            if key2 in self.index: return self.index[key2]
        if key in self.index: return self.index[key]
        r=z3.FP(self.fresh_name('%s_%s'%(op,rm)),sort)
        self.index[key]=r
        self._intro(op,rm,args,r)
        self.apps.append((op,rm,args,r))
        return r
    def C(self,c): self.cons.append(c)
    def _zero(self,r): return z3.fpIsZero(r)
    def _intro(self,op,rm,args,r):
        s=r.sort(); one=fp_of_frac(1,s); zero=z3.fpPlusZero(s); inf=z3.fpPlusInfinity(s)
        if op=='mul':
            a,b=args  # a,b>=0 and not NaN and not 0*inf when used
            ok=z3.And(z3.fpGEQ(a,zero),z3.fpGEQ(b,zero),z3.Not(z3.And(z3.fpIsZero(a),z3.fpIsInf(b))),z3.Not(z3.And(z3.fpIsInf(a),z3.fpIsZero(b))))
            self.C(z3.fpGEQ(r,zero)); self.C(z3.fpIsPositive(r))
            self.C(z3.Implies(z3.And(ok,z3.Or(z3.fpIsZero(a),z3.fpIsZero(b))),r==zero))
            self.C(z3.Implies(z3.And(ok,z3.Or(z3.fpIsInf(a),z3.fpIsInf(b))),r==inf))
            self.C(z3.Implies(z3.And(ok,z3.fpEQ(a,one)),z3.fpEQ(r,b))); self.C(z3.Implies(z3.And(ok,z3.fpEQ(b,one)),z3.fpEQ(r,a)))
            if rm=='up': self.C(z3.Implies(z3.And(z3.fpGT(a,zero),z3.fpGT(b,zero)),z3.fpGT(r,zero)))
            if rm in('dn','rz'): self.C(z3.Implies(z3.And(self.Fin(a),self.Fin(b)),self.Fin(r)))
            # compare with the factors: a<=1 => r<=b etc.
            for x,y in((a,b),(b,a)):
                self.C(z3.Implies(z3.And(ok,z3.fpLEQ(x,one)),z3.fpLEQ(r,y)))
                self.C(z3.Implies(z3.And(ok,z3.fpGEQ(x,one)),z3.fpGEQ(r,y)))
        elif op=='div':
            a,b=args
            ok=z3.And(z3.fpGEQ(a,zero),z3.fpGEQ(b,zero),z3.Not(z3.And(z3.fpIsZero(a),z3.fpIsZero(b))),z3.Not(z3.And(z3.fpIsInf(a),z3.fpIsInf(b))))
            self.C(z3.fpGEQ(r,zero)); self.C(z3.fpIsPositive(r))
            self.C(z3.Implies(z3.And(ok,z3.Or(z3.fpIsZero(a),z3.fpIsInf(b))),r==zero))
            self.C(z3.Implies(z3.And(ok,z3.Or(z3.fpIsInf(a),z3.fpIsZero(b))),r==inf))
            self.C(z3.Implies(z3.And(ok,z3.fpEQ(b,one)),z3.fpEQ(r,a)))
            self.C(z3.Implies(z3.And(ok,z3.fpEQ(a,b)),r==one))
            self.C(z3.Implies(z3.And(ok,z3.fpLEQ(a,b)),z3.fpLEQ(r,one)))
            self.C(z3.Implies(z3.And(ok,z3.fpGEQ(a,b)),z3.fpGEQ(r,one)))
            if rm=='up': self.C(z3.Implies(z3.And(ok,z3.fpGT(a,zero),self.Fin(b)),z3.fpGT(r,zero)))
            if rm in('dn','rz'): self.C(z3.Implies(z3.And(ok,self.Fin(a),z3.fpGT(b,zero)),self.Fin(r)))
            self.C(z3.Implies(z3.And(ok,z3.fpGEQ(b,one)),z3.fpLEQ(r,a)))
            self.C(z3.Implies(z3.And(ok,z3.fpLEQ(b,one)),z3.fpGEQ(r,a)))
        elif op=='add':
            a,b=args
            nan=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b),z3.And(z3.fpIsInf(a),z3.fpIsInf(b),z3.fpIsPositive(a)!=z3.fpIsPositive(b)))
            self.C(z3.fpIsNaN(r)==nan)
            ok=z3.Not(nan)
            self.C(z3.Implies(z3.And(ok,z3.fpIsInf(a)),r==a)); self.C(z3.Implies(z3.And(ok,z3.fpIsInf(b)),r==b))
            for x,y in((a,b),(b,a)):
                self.C(z3.Implies(z3.And(ok,z3.fpIsZero(x)),z3.fpEQ(r,y)))
                self.C(z3.Implies(z3.And(ok,z3.fpGEQ(x,zero)),z3.fpGEQ(r,y)))
                self.C(z3.Implies(z3.And(ok,z3.fpLEQ(x,zero)),z3.fpLEQ(r,y)))
            self.C(z3.Implies(ok,z3.fpGEQ(a,z3.fpNeg(b))==z3.fpGEQ(r,zero)))
            self.C(z3.Implies(ok,z3.fpLEQ(a,z3.fpNeg(b))==z3.fpLEQ(r,zero)))
            fin=z3.And(self.Fin(a),self.Fin(b))
            if rm=='up': self.C(z3.Implies(fin,r!=z3.fpMinusInfinity(s)))
            if rm=='dn': self.C(z3.Implies(fin,r!=inf))
            if rm=='rz': self.C(z3.Implies(fin,self.Fin(r)))
        elif op=='sqrt':
            a,=args
            self.C(z3.fpIsNaN(r)==z3.Or(z3.fpIsNaN(a),z3.fpLT(a,zero)))
            self.C(z3.Implies(z3.fpIsZero(a),r==a)); self.C(z3.Implies(z3.fpIsInf(a),z3.Or(r==inf,z3.fpIsNaN(r))))
            self.C(z3.Implies(z3.fpGT(a,zero),z3.fpGT(r,zero)))
            self.C(z3.Implies(z3.fpEQ(a,one),r==one))
            self.C(z3.Implies(z3.And(z3.fpGEQ(a,zero),self.Fin(a)),self.Fin(r)))
            self.C(z3.Implies(z3.fpGEQ(a,one),z3.And(z3.fpLEQ(r,a),z3.fpGEQ(r,one))))
            self.C(z3.Implies(z3.And(z3.fpGEQ(a,zero),z3.fpLEQ(a,one)),z3.And(z3.fpGEQ(r,a),z3.fpLEQ(r,one))))
        else:
            self._intro_libm(op,rm,args[0],r)
        # pairwise
        for (op2,rm2,args2,r2) in self.apps: self._pair(op,rm,args,r,op2,rm2,args2,r2)
        for (op2,rm2,args2,r2) in self.factlist:
            if args2[0].sort()==args[0].sort(): self._pair(op,rm,args,r,op2,rm2,args2,r2)
    ORD={('dn','ne'),('ne','up'),('dn','up'),('dn','rz'),('rz','up'),('dn','dn'),('ne','ne'),('up','up'),('rz','rz')}
    def _pair(self,op,rm,args,r,op2,rm2,args2,r2):
        if op!=op2 or r.sort()!=r2.sort(): return
        self._mono(op,rm,args,r,rm2,args2,r2)
        self._mono(op,rm2,args2,r2,rm,args,r)
    def _mono(self,op,rm,a,r,rm2,a2,r2):
        """a <= a2 pointwise and rm weaker  =>  r <= r2"""
        if (rm,rm2) not in self.ORD: return
        if op in('mul','add'):
            z=z3.fpPlusZero(r.sort())
            pre=[] 
            ok=z3.Not(z3.Or(z3.fpIsNaN(r),z3.fpIsNaN(r2)))
            g=[z3.And(z3.fpLEQ(a[0],a2[0]),z3.fpLEQ(a[1],a2[1])), z3.And(z3.fpLEQ(a[0],a2[1]),z3.fpLEQ(a[1],a2[0]))]
            if op=='mul':
                bad=lambda x:z3.Or(z3.And(z3.fpIsZero(x[0]),z3.fpIsInf(x[1])),z3.And(z3.fpIsInf(x[0]),z3.fpIsZero(x[1])))
                pos=z3.And([z3.fpGEQ(x,z) for x in a])
                self.C(z3.Implies(z3.And(z3.Or(g),pos,z3.Not(bad(a)),z3.Not(bad(a2))),z3.fpLEQ(r,r2)))
            else:
                self.C(z3.Implies(z3.And(z3.Or(g),ok),z3.fpLEQ(r,r2)))
        elif op=='div':
            z=z3.fpPlusZero(r.sort())
            bad=lambda x:z3.Or(z3.And(z3.fpIsZero(x[0]),z3.fpIsZero(x[1])),z3.And(z3.fpIsInf(x[0]),z3.fpIsInf(x[1])))
            pos=z3.And(z3.fpGEQ(a[0],z),z3.fpGEQ(a2[1],z))
            self.C(z3.Implies(z3.And(z3.fpLEQ(a[0],a2[0]),z3.fpGEQ(a[1],a2[1]),pos,z3.Not(bad(a)),z3.Not(bad(a2))),z3.fpLEQ(r,r2)))
        elif op=='sqrt':
            z=z3.fpPlusZero(r.sort())
            self.C(z3.Implies(z3.And(z3.fpGEQ(a[0],z),z3.fpLEQ(a[0],a2[0])),z3.fpLEQ(r,r2)))
        else:
            d=LIBM.get(op)
            if d and d.get('mono'):
                ok=z3.Not(z3.Or(z3.fpIsNaN(r),z3.fpIsNaN(r2)))
                le=z3.fpLEQ(a[0],a2[0]) if d['mono']>0 else z3.fpGEQ(a[0],a2[0])
                self.C(z3.Implies(z3.And(le,ok),z3.fpLEQ(r,r2)))
            else:
                self.C(z3.Implies(z3.And(z3.fpEQ(a[0],a2[0])),z3.Or(z3.fpLEQ(r,r2),z3.fpIsNaN(r))))
            if d and d.get('even'):
                self.C(z3.Implies(z3.fpEQ(a[0],z3.fpNeg(a2[0])),z3.Or(z3.fpLEQ(r,r2),z3.fpIsNaN(r))))
                if d.get('even')=='inc': # even, increasing in |x| (cosh)
                    self.C(z3.Implies(z3.fpLEQ(z3.fpAbs(a[0]),z3.fpAbs(a2[0])),z3.fpLEQ(r,r2)))
    def _intro_libm(self,op,rm,a,r):
        d=LIBM.get(op); s=r.sort(); z=z3.fpPlusZero(s); one=fp_of_frac(1,s)
        if not d: return
        dom=[z3.Not(z3.fpIsNaN(a))]
        if 'lo' in d: dom.append((z3.fpGT if d.get('loopen') else z3.fpGEQ)(a,fp_of_frac(d['lo'],s)))
        if 'hi' in d: dom.append((z3.fpLT if d.get('hiopen') else z3.fpLEQ)(a,fp_of_frac(d['hi'],s)))
        dm=z3.And(dom)
        if d.get('infnan'): dm=z3.And(dm,self.Fin(a))
        self.C(z3.Implies(dm,z3.Not(z3.fpIsNaN(r))))
        self.C(z3.Implies(z3.fpIsNaN(a),z3.fpIsNaN(r)))
        for x,y in d.get('pts',[]):
            self.C(z3.Implies(z3.fpEQ(a,fp_of_frac(x,s)),z3.fpEQ(r,fp_of_frac(y,s))))
        if 'rlo' in d: self.C(z3.Implies(dm,z3.fpGEQ(r,fp_of_frac(d['rlo'],s))))
        if 'rhi' in d: self.C(z3.Implies(dm,z3.fpLEQ(r,fp_of_frac(d['rhi'],s))))
        if d.get('sgn'):
            self.C(z3.Implies(z3.fpGEQ(a,z),z3.Or(z3.fpGEQ(r,z),z3.fpIsNaN(r)))); self.C(z3.Implies(z3.fpLEQ(a,z),z3.Or(z3.fpLEQ(r,z),z3.fpIsNaN(r))))
    # ---- public operations
    def binop(self,op,rm,a,b):
        if op in self.exact_ops or (z3.is_fp_value(a) and z3.is_fp_value(b)): return super().binop(op,rm,a,b)
        s=a.sort()
        if op=='sub': op='add'; b=self.neg(b)
        if op=='add':
            if rm=='dn': return self.neg(self.binop('add','up',self.neg(a),self.neg(b)))
            key=('add',rm,(a.get_id(),b.get_id())); key2=('add',rm,(b.get_id(),a.get_id()))
            if key in self.index: return self.index[key]
            if key2 in self.index: return self.index[key2]
            # rounding to nearest is odd: reuse
            if rm in('ne','rz'):
                na,nb=self.neg(a),self.neg(b)
                for k in (('add',rm,(na.get_id(),nb.get_id())),('add',rm,(nb.get_id(),na.get_id()))):
                    if k in self.index: return self.neg(self.index[k])
            return self.app('add',rm,(a,b),s)
        if op in('mul','div'):
            A,B=self._mag(a),self._mag(b)
            sa,sb=self._sign(a),self._sign(b)
            neg=z3.simplify(z3.Xor(sa,sb))
            rp=self.app(op,rm,(A,B),s)
            rn=self.app(op,FLIP[rm],(A,B),s)
            if op=='mul': bad=z3.Or(z3.And(z3.fpIsZero(A),z3.fpIsInf(B)),z3.And(z3.fpIsInf(A),z3.fpIsZero(B)))
            else: bad=z3.Or(z3.And(z3.fpIsZero(A),z3.fpIsZero(B)),z3.And(z3.fpIsInf(A),z3.fpIsInf(B)))
            nan=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b),bad)
            return z3.If(nan,z3.fpNaN(s),z3.If(neg,z3.fpNeg(rn),rp))
        raise Unsupported('fp op '+op)
    def _mag(self,a):
        if is_app(a,z3.Z3_OP_FPA_NEG): a=a.arg(0)
        return z3.simplify(z3.fpAbs(a))
    def _sign(self,a):
        if is_app(a,z3.Z3_OP_FPA_NEG): return z3.Not(z3.fpIsNegative(a.arg(0)))   # only used when not NaN
        return z3.fpIsNegative(a)
    def sqrt(self,rm,a):
        if z3.is_fp_value(a) or 'sqrt' in self.exact_ops: return super().sqrt(rm,a)
        return self.app('sqrt',rm,(a,),a.sort())
    def fma(self,rm,a,b,c): raise Unsupported('fma')
    def libm(self,name,rm,a,k):
        if self.libm_impl is not None and z3.is_fp_value(a): return self.libm_impl(self,name,rm,a,k)
        d=LIBM.get(name,{})
        if d.get('odd') and is_app(a,z3.Z3_OP_FPA_NEG):   # symmetric functions: f_rm(-x) = -f_flip(rm)(x)
            return fneg(self.libm(name,FLIP[rm],a.arg(0),k))
        if d.get('even') and is_app(a,z3.Z3_OP_FPA_NEG): a=a.arg(0)
        return self.app(name,rm,(a,),a.sort())

# contract of the base functions used by the Kernel domain: correctly directed, hence monotone where f is
LIBM={
 'exp':dict(mono=1,pts=[(0,1),('inf','inf'),('-inf',0)],rlo=0),
 'log':dict(mono=1,lo=0,pts=[(1,0),('inf','inf'),(0,'-inf')]),
 'sinh':dict(mono=1,odd=1,pts=[(0,0),('inf','inf'),('-inf','-inf')],sgn=1),
 'cosh':dict(even='inc',pts=[(0,1),('inf','inf'),('-inf','inf')],rlo=1),
 'tanh':dict(mono=1,odd=1,pts=[(0,0),('inf',1),('-inf',-1)],rlo=-1,rhi=1,sgn=1),
 'asinh':dict(mono=1,odd=1,pts=[(0,0),('inf','inf'),('-inf','-inf')],sgn=1),
 'acosh':dict(mono=1,lo=1,pts=[(1,0),('inf','inf')],rlo=0),
 'atanh':dict(mono=1,odd=1,lo=-1,hi=1,pts=[(0,0),(1,'inf'),(-1,'-inf')],sgn=1),
 'asin':dict(mono=1,odd=1,lo=-1,hi=1,pts=[(0,0)],sgn=1),
 'acos':dict(mono=-1,lo=-1,hi=1,pts=[(1,0)],rlo=0),
 'atan':dict(mono=1,odd=1,pts=[(0,0)],sgn=1),
 'sin':dict(odd=1,pts=[(0,0)],infnan=1,rlo=-1,rhi=1),
 'cos':dict(even=1,pts=[(0,1)],infnan=1,rlo=-1,rhi=1),
 'tan':dict(odd=1,pts=[(0,0)],infnan=1),
}

# -------------------------------------------------------------------------------------------------
class Real(Domain):
    """finite real semantics with directed-rounding contracts.  exact=True: no rounding at all."""
    name='real'
    RINF=z3.Real('RINF!'); RNINF=-RINF
    def side(self,a):
        return 1 if a.eq(self.RINF) else -1 if a.eq(self.RNINF) else 0
    def __init__(self,exact=False,products='nl'):
        self.exact=exact; self.native=False
        self.libm_hook=None
        super().__init__()
    def describe(self):
        return 'mathematical reals'+(', no rounding' if self.exact else ', every rounded operation bounded by its directed rounding contract relative to all representable numbers in play')
    def reset(self):
        super().reset(); self.reps=[]; self.seen=set(); self.keep=[]
    def new_solver(self,timeout_ms):
        s=z3.Solver(); s.set('timeout',timeout_ms); return s
    def rep(self,a):
        a=self._w(a)
        if a.get_id() in self.seen: return a
        self.seen.add(a.get_id()); self.reps.append(a); return a
    def _w(self,a):
        return a if z3.is_expr(a) else z3.RealVal(str(a))
    def num(self,k,v):
        if v in('inf','-inf'): return self.RINF if v=='inf' else self.RNINF      # only for comparisons
        if isinstance(v,str): raise Unsupported('non-finite constant in real domain')
        v=Fraction(v); r=z3.Q(v.numerator,v.denominator); self.rep(z3.simplify(r)); return z3.simplify(r)
    def const(self,k,text):
        v=parse_fp_text(k,text)
        if v=='-0': v=Fraction(0)
        return self.num(k,v)
    def sort(self,k): return z3.RealSort()
    def fresh(self,k,name): return self.rep(z3.Real(name))
    def nan(self,k): raise Unsupported('NaN in real domain')
    def neg(self,a):
        if self.side(a): return self.RNINF if self.side(a)>0 else self.RINF
        r=z3.simplify(-a); self.rep(r); return r
    def abs(self,a): r=z3.simplify(z3.If(a>=0,a,-a)); self.rep(r); return r
    def rnd(self,rm,e,nm='r'):
        e=z3.simplify(e)
        if self.exact: return e
        if z3.is_rational_value(e):
            f=e.as_fraction()
            d=f.denominator
            if d&(d-1)==0 and abs(f.numerator)<(1<<20) : self.rep(e); return e
        key=(rm,e.get_id())
        if key in self.cache: return self.cache[key]
        ne=z3.simplify(-e)
        k2=(FLIP[rm],ne.get_id())
        if k2 in self.cache: return self.neg(self.cache[k2])
        r=z3.Real(self.fresh_name(nm+'_'+rm)); self.cache[key]=r; self.keep.append(e)
        cs=self.cons
        if rm=='dn': cs.append(r<=e)
        elif rm=='up': cs.append(r>=e)
        for v in self.reps:
            if rm in('dn',):
                cs.append(z3.Implies(v<=e,v<=r))
            elif rm=='up':
                cs.append(z3.Implies(v>=e,v>=r))
            else:
                cs.append(z3.Implies(v<=e,v<=r)); cs.append(z3.Implies(v>=e,v>=r))
        self.rep(r)
        return r
    def binop(self,op,rm,a,b):
        if self.side(a) or self.side(b): raise Unsupported('arithmetic with an infinite constant in the real domain')
        if op=='add': return self.rnd(rm,a+b,'add')
        if op=='sub': return self.rnd(rm,a-b,'add')
        if op=='mul': return self.rnd(rm,a*b,'mul')
        if op=='div':
            key=('q',a.get_id(),b.get_id())
            if key in self.cache: q=self.cache[key]
            else:
                bs=z3.simplify(b)
                if z3.is_rational_value(bs) and bs.as_fraction()!=0: q=z3.simplify(a/b)
                else:
                    q=z3.Real(self.fresh_name('q')); self.cons.append(q*b==a); self.cons.append(b!=0)
                self.cache[key]=q; self.keep+=[a,b]
            return self.rnd(rm,q,'div')
        raise Unsupported('fp op '+op)
    def fma(self,rm,a,b,c): return self.rnd(rm,a*b+c,'fma')
    def sqrt(self,rm,a):
        q=z3.Real(self.fresh_name('sq')); self.cons+= [q>=0,q*q==a]
        return self.rnd(rm,q,'sqrt')
    def rint(self,rm,a):
        key=('rint',rm,a.get_id())
        if key in self.cache: return self.cache[key]
        i=z3.Int(self.fresh_name('i')); r=z3.ToReal(i)
        if rm=='dn': c=[r<=a,a<r+1]
        elif rm=='up': c=[r>=a,a>r-1]
        elif rm=='ne': c=[r-a<=z3.Q(1,2),a-r<=z3.Q(1,2)]
        else: c=[z3.If(a>=0,z3.And(r<=a,a<r+1),z3.And(r>=a,a>r-1))]
        self.cons+=c; self.rep(r); self.cache[key]=r; self.keep.append(a); return r
    def cvt(self,rm,a,frm,to):
        order=['half','float','double','x86_fp80']
        if order.index(to)>=order.index(frm): return a
        return self.rnd(rm,a,'cvt')
    def from_int(self,rm,v,width,signed,to):
        if isinstance(v,int):
            if signed and v>=1<<(width-1): v-=1<<width
            return self.num(to,v)
        raise Unsupported('symbolic int->fp in real domain')
    def to_int(self,a,w,s): raise Unsupported('fp->int in real domain')
    def cmp(self,pred,a,b):
        if self.side(a) or self.side(b): a,b=z3.IntVal(self.side(a)),z3.IntVal(self.side(b))
        f={'oeq':lambda:a==b,'one':lambda:a!=b,'ogt':lambda:a>b,'oge':lambda:a>=b,'olt':lambda:a<b,'ole':lambda:a<=b,
           'ueq':lambda:a==b,'une':lambda:a!=b,'ugt':lambda:a>b,'uge':lambda:a>=b,'ult':lambda:a<b,'ule':lambda:a<=b,'ord':lambda:z3.BoolVal(True),'uno':lambda:z3.BoolVal(False),'true':lambda:z3.BoolVal(True),'false':lambda:z3.BoolVal(False)}[pred]
        return z3.simplify(f())
    def isnan(self,a): return z3.BoolVal(False)
    def isinf(self,a): return z3.BoolVal(False)
    def fpclass(self,a,mask):
        c=[]
        if mask&(8|16): c.append(a<0)
        if mask&(128|256): c.append(a>0)
        if mask&96: c.append(a==0)
        return z3.Or(c) if c else z3.BoolVal(False)
    def bits(self,a,k): raise Unsupported('bits in real domain')
    def from_bits(self,v,k): raise Unsupported('bits in real domain')
    def libm(self,name,rm,a,k):
        if self.libm_hook: return self.libm_hook(self,name,rm,a,k)
        raise Unsupported('libm in real domain')
    def ite(self,c,a,b):
        if c is True: return a
        if c is False: return b
        return z3.If(c,a,b)
    def lt(self,a,b): return a<b
    def le(self,a,b): return a<=b
    def eq(self,a,b): return a==b

# -------------------------------------------------------------------------------------------------
class IntMul(Exact):
    """integers as bit vectors; a product of two symbolic integers is a double-width number constrained by
    instantiated facts of integer multiplication (signs, units, monotonicity), so unsat answers are proofs"""
    name='intmul'; incremental=False
    def reset(self): super().reset(); self.prods=[]; self.pkey={}
    def new_solver(self,ms):
        s=z3.SolverFor('QF_BV'); s.set('timeout',ms); return s
    def describe(self): return 'integers as bit vectors, products by instantiated facts'
    def wide(self,x,w): return z3.SignExt(w,x)
    def prod(self,x,y,w):
        """the exact product as a 2w-bit number"""
        x,y=z3.simplify(x),z3.simplify(y)
        if z3.is_bv_value(x) or z3.is_bv_value(y): return z3.SignExt(w,x)*z3.SignExt(w,y)
        k=tuple(sorted((x.get_id(),y.get_id())))
        if k in self.pkey: return self.pkey[k][0]
        p=z3.BitVec(self.fresh_name('prod'),2*w); C=self.cons.append
        X,Y=z3.SignExt(w,x),z3.SignExt(w,y); z=z3.BitVecVal(0,2*w); big=z3.BitVecVal(1<<(2*w-2),2*w)
        C(p<=big); C(p>=-big)
        C((p==0)==z3.Or(x==0,y==0)); C(z3.Implies(z3.And(x!=0,y!=0),(p>0)==((x>0)==(y>0))))
        for a,b in((X,Y),(Y,X)):
            C(z3.Implies(a==1,p==b)); C(z3.Implies(a==-1,p==-b))
            C(z3.Implies(z3.And(a>=1,b>=0),p>=b)); C(z3.Implies(z3.And(a>=1,b<=0),p<=b))
            C(z3.Implies(z3.And(a<=-1,b>=0),p<=-b)); C(z3.Implies(z3.And(a<=-1,b<=0),p>=-b))
        self.pkey[k]=(p,x,y)
        for q,u,v in self.prods:
            U,V=z3.SignExt(w,u),z3.SignExt(w,v)
            for (a,b,c,d) in ((X,Y,U,V),(X,Y,V,U)):
                # |a|<=|c| and |b|<=|d|, by signs
                for sa in(1,-1):
                    for sb in(1,-1):
                        A,B,Cc,Dd=(a if sa>0 else -a),(b if sb>0 else -b),None,None
                        for sc in(1,-1):
                            for sd in(1,-1):
                                Cc,Dd=(c if sc>0 else -c),(d if sd>0 else -d)
                                P=p if sa*sb>0 else -p; Q=q if sc*sd>0 else -q
                                self.cons.append(z3.Implies(z3.And(A>=0,B>=0,Cc>=0,Dd>=0,A<=Cc,B<=Dd),P<=Q))
                                self.cons.append(z3.Implies(z3.And(A>=0,B>=0,Cc>=0,Dd>=0,A>=Cc,B>=Dd),P>=Q))
        self.prods.append((p,x,y)); return p
    def imul(self,x,y,w):
        p=self.prod(x,y,w); r=z3.Extract(w-1,0,p)
        return r,z3.SignExt(w,r)==p
