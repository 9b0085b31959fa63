"""Cong: congruence domain.  A number is a term over the inputs; a rounded operation is an uninterpreted function of
the rounding mode and its arguments, a comparison an uninterpreted predicate (with the order axioms on the pair).
Equal terms are equal numbers, whatever the bit patterns and the width, so unsat answers hold for all of them.
Used where a property compares two executions of the same code (modes, unprotected variants, overloads)."""
import z3
from fractions import Fraction as F
from domains import FPSORT, FLIP, LIBM, parse_fp_text, Unsupported
from logic import And, Or, Not, Implies, Iff
import conc
class N:
    __slots__=('t','k','c')
    def __init__(self,t,k,c=None): self.t=t; self.k=k; self.c=c
class Cong:
    name='cong'; native=True; incremental=True
    def __init__(self):
        self.cc=conc.Conc(); self.libm_impl=None; self.ids={}; self.rev=[]; self.bools={}; self.reset()
    def describe(self): return 'terms modulo congruence, every width'
    def reset(self): self.cons=[]; self.apps=[]; self.on=set(); self.ints={}
    def new_solver(self,ms): s=z3.SimpleSolver(); s.set('timeout',ms); return s
    def T(self,k,*t):
        """hash-consed term"""
        key=(k,)+t
        n=self.ids.get(key)
        if n is None: n=N(len(self.rev),k); self.ids[key]=n; self.rev.append(key)
        return n
    def conc(self,k,v):
        kv=v if isinstance(v,str) else (v.numerator,v.denominator)
        n=self.T(k,'const',kv); n.c=v; return n
    def const(self,k,text): return self.num(k,parse_fp_text(k,text))
    def num(self,k,v): return self.conc(k,self.cc.num(k,v))
    def fresh(self,k,name): return self.T(k,'var',name)
    def nan(self,k): return self.conc(k,'nan')
    def op(self,k,*t): return self.T(k,*t)
    def neg(self,a):
        if a.c is not None: return self.conc(a.k,conc.neg(a.c))
        r=self.rev[a.t]
        if r[1]=='neg': return self._n(r[2])
        return self._u('neg',a)
    def _n(self,i): return self.ids[self.rev[i]]
    def _u(self,o,a,*x): return self.T(a.k,o,a.t,*x)
    def abs(self,a):
        if a.c is not None: return self.conc(a.k,self.cc.abs(a.c))
        return self._u('abs',a)
    def ite(self,c,a,b):
        if isinstance(c,int): return a if c else b
        if a is b: return a
        return self.T(a.k,'ite',c.get_id(),a.t,b.t,self._keep(c))
    def _keep(self,c): self.bools[c.get_id()]=c; return 0
    # predicates
    def atom(self,p,*a):
        """the truth of a predicate on terms"""
        key=(p,)+tuple(x.t for x in a); b=self.bools.get(key)
        if b is None: b=z3.Bool('%s!%s'%(p,'!'.join(str(x.t) for x in a))); self.bools[key]=b
        return b
    def isnan(self,a):
        if a.c is not None: return a.c=='nan'
        return self.atom('nan',a)
    def isinf(self,a):
        if a.c is not None: return a.c in('inf','-inf')
        b=self.atom('inf',a); self.C(('inf',a.t),Not(And(b,self.isnan(a)))); return b
    def C(self,key,*cs):
        if key in self.on: return
        self.on.add(key); self.cons+= [z3.BoolVal(c) if isinstance(c,bool) else c for c in cs]
    def rel(self,o,a,b):
        if a.c is not None and b.c is not None: return self.cc.cmp('o'+o,a.c,b.c)
        if a.c=='nan' or b.c=='nan': return False
        if a is b: return Not(self.isnan(a)) if o in('eq','le','ge') else False
        if o in('gt','ge'): a,b=b,a; o={'gt':'lt','ge':'le'}[o]
        if a.t>b.t:
            x,y=b,a; lt,gt,eq=self.atom('lt',x,y),self.atom('gt',x,y),self.atom('eq',x,y); lt,gt=gt,lt
        else: x,y=a,b; lt,gt,eq=self.atom('lt',x,y),self.atom('gt',x,y),self.atom('eq',x,y)
        un=Or(self.isnan(a),self.isnan(b))
        self.C(('rel',x.t,y.t),Or(un,lt,gt,eq),Not(And(lt,gt)),Not(And(lt,eq)),Not(And(gt,eq)),Not(And(un,Or(lt,gt,eq))))
        return lt if o=='lt' else eq if o=='eq' else Or(lt,eq)
    def cmp(self,p,a,b):
        if p in('true','false'): return p=='true'
        if p=='ord': return And(Not(self.isnan(a)),Not(self.isnan(b)))
        if p=='uno': return Or(self.isnan(a),self.isnan(b))
        if p[0]=='o':
            if p=='one': return And(Not(self.isnan(a)),Not(self.isnan(b)),Not(self.rel('eq',a,b)))
            return self.rel(p[1:],a,b)
        inv={'ueq':'one','une':'oeq','ugt':'ole','uge':'olt','ult':'oge','ule':'ogt'}[p]
        return Not(self.cmp(inv,a,b))
    def lt(self,a,b): return self.rel('lt',a,b)
    def le(self,a,b): return self.rel('le',a,b)
    def eq(self,a,b): return self.rel('eq',a,b)
    def same(self,a,b): return True if a is b else Or(self.eq(a,b),And(self.isnan(a),self.isnan(b)))
    def signbit(self,a):
        if a.c is not None: return self.cc.signbit(a.c)
        return self.atom('sign',a)
    def fpclass(self,a,mask):
        if a.c is not None: return self.cc.fpclass(a.c,mask)
        if mask==3: return self.isnan(a)
        if mask==0x204: return self.isinf(a)
        if mask==0x1f8: return And(Not(self.isnan(a)),Not(self.isinf(a)))
        return self.atom('class%x'%mask,a)
    def bits(self,a,k):
        r=self.rev[a.t]
        if r[1]=='frombits': return self.bools[r[2]]
        if a.c is not None: return self.cc.bits(a.c,k)
        raise Unsupported('bit pattern in the congruence domain')
    def from_bits(self,v,k):
        if isinstance(v,int):
            c=self.cc.from_bits(v,k)
            if c!='nan': return self.conc(k,c)
            n=self.T(k,'const','nan',v); n.c=c; return n
        if not z3.is_bv(v): raise Unsupported('bit pattern in the congruence domain')
        self._keep(v); return self.T(k,'frombits',v.get_id())
    # rounded operations
    def binop(self,op,rm,a,b):
        if a.c is not None and b.c is not None: return self.conc(a.k,self.cc.binop(op,rm,a.c,b.c,a.k))
        if op=='sub': op='add'; b=self.neg(b)
        if op in('mul','div'):       # -x*y = -(x*y) with the mirrored rounding
            fa,fb=self._isneg(a),self._isneg(b)
            if fa: a=self.neg(a)
            if fb: b=self.neg(b)
            if fa!=fb: return self.neg(self.binop(op,FLIP[rm],a,b))
        elif rm=='dn': return self.neg(self.binop('add','up',self.neg(a),self.neg(b)))
        x,y=a.t,b.t
        if op in('mul','add') and x>y: x,y=y,x
        return self.T(a.k,op,rm,x,y)
    def _isneg(self,a): return a.c is None and self.rev[a.t][1]=='neg'
    def sqrt(self,rm,a):
        if a.c is not None: return self.conc(a.k,self.cc.sqrt(rm,a.c,a.k))
        return self._u('sqrt',a,rm)
    def rint(self,rm,a):
        if a.c is not None: return self.conc(a.k,self.cc.rint(rm,a.c))
        if self._isneg(a): return self.neg(self.rint(FLIP[rm],self.neg(a)))
        return self._u('rint',a,rm)
    def fma(self,rm,a,b,c): raise Unsupported('fma')
    def libm(self,name,rm,a,k):
        d=LIBM.get(name,{})
        if self._isneg(a):
            if d.get('odd'): return self.neg(self.libm(name,FLIP[rm],self.neg(a),k))
            if d.get('even'): a=self.neg(a)
        return self._u('libm_'+name,a,rm)
    def cvt(self,rm,a,frm,to):
        if a.c is not None: return self.conc(to,self.cc.cvt(rm,a.c,frm,to))
        order=['half','float','double','x86_fp80']
        if order.index(to)>=order.index(frm): return self.T(to,'ext',a.t)
        if self._isneg(a): return self.neg(self.cvt(FLIP[rm],self.neg(a),frm,to))
        r=self.rev[a.t]
        if r[1]=='ext' and self._n(r[2]).k==to: return self._n(r[2])
        if r[1]=='rint':            # rounding a wider copy to an integer gives a number of the narrower format
            q=self.rev[r[2]]
            if q[1]=='ext' and self._n(q[2]).k==to: return self.rint(r[3],self._n(q[2]))
        return self.T(to,'cvt',rm,a.t)
    def from_int(self,rm,v,width,signed,to):
        if isinstance(v,int): return self.conc(to,self.cc.from_int(rm,v,width,signed,to))
        self._keep(v); w=width-(1 if signed else 0)
        return self.T(to,'int',v.get_id(),width,signed,'exact' if w<=FPSORT[to][1] else rm)
    def to_int(self,a,w,s): raise Unsupported('fp to int in the congruence domain')
