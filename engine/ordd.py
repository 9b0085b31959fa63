"""Ord: native-width domain.  A number is (is-NaN, real value, sign); comparison, negation, absolute value and
classification are exact on it; + - * / sqrt, narrowing conversions, rounding to integral and libm calls are new
numbers constrained by instantiated IEEE facts (directed rounding is monotone, symmetric, exact on identities;
sums and conversions by their directed contract relative to the numbers in play).  Every execution of the real
arithmetic is a model, so unsat is a proof for every bit pattern of every width; sat needs replay."""
import z3
from fractions import Fraction
from domains import FPSORT, FLIP, LIBM, parse_fp_text, Unsupported
from logic import And, Or, Not, Implies, Iff, Xor, Ite
import conc
F=Fraction
ORDER={'half':0,'float':1,'double':2,'x86_fp80':3,'int':9}
class N:
    __slots__=('b','fl','nan','v','s','c','k')
    def __init__(self,b,fl,nan,v,s,c,k): self.b=b; self.fl=fl; self.nan=nan; self.v=v; self.s=s; self.c=c; self.k=k
    def key(self): return (self.b,self.fl)
def Q(f): return z3.RealVal(str(f)) if f.denominator==1 else z3.Q(f.numerator,f.denominator)
class Ord:
    name='ord'; native=True; incremental=True
    INF=z3.Real('INF!')
    def __init__(self):
        self.cc=conc.Conc(); self.factlist=[]; self.libm_impl=None; self.reset()
    def describe(self): return 'every width (float/double/long double), order abstraction with instantiated IEEE lemmas'
    def reset(self):
        self.cons=[self.INF>Q(F(2)**70)]; self.active={}; self.ints={}; self.apps=[]; self.reps=[]; self.rounds=[]
        if not hasattr(self,'store'):
            self.store={}; self.pairs={}; self.cache={}; self.nb=0; self.names={}; self.keep=[]
    def _with(self,key,build):
        """hash-consed creation: the constraints of a number are kept with it and re-asserted when a later path uses it"""
        if key in self.active: return self.active[key]
        e=self.store.get(key)
        if e is None:
            save=self.cons; self.cons=[]
            r=build(); e=(r,self.cons); self.cons=save; self.store[key]=e
        self.active[key]=e[0]; self.cons+=e[1]
        return e[0]
    def _pairc(self,key,build):
        e=self.pairs.get(key)
        if e is None:
            save=self.cons; self.cons=[]; build(); e=self.cons; self.cons=save; self.pairs[key]=e
        self.cons+=e
    def new_solver(self,ms):
        s=z3.SimpleSolver(); s.set('timeout',ms); return s
    def C(self,c):
        if c is True: return
        if c is False: c=z3.BoolVal(False)
        self.cons.append(c)
    def _rep(self,n):
        self.reps.append(n); return n
    # ---- values
    def conc(self,k,v):
        """number with known value"""
        kv=v if isinstance(v,str) else (v.numerator,v.denominator)
        def build():
            if v=='nan': return N(('k',v,k),False,True,z3.RealVal(0),False,v,k)
            if v in('inf','-inf'): return N(('k','inf',k),v=='-inf',False,self.INF if v=='inf' else -self.INF,v=='-inf',v,k)
            x=conc.val(v); ax=abs(x); sg=bool(conc.sgn(v))
            if ax>=F(2)**70: self.C(self.INF>Q(ax))
            return N(('k',str(ax),k),sg,False,Q(x),sg,v,k)
        new=('c',kv,k) not in self.active
        n=self._with(('c',kv,k),build)
        if new and not isinstance(v,str) or v=='-0': self._rep(n)
        return n
    def const(self,k,text): return self.num(k,parse_fp_text(k,text))
    def num(self,k,v): return self.conc(k,self.cc.num(k,v))
    def fresh(self,k,name,nan=True,sign=None):
        def build():
            n=N(name+'@'+k,False,z3.Bool(name+'!n') if nan else False,z3.Real(name+'!v'),z3.Bool(name+'!s') if sign is None else sign,None,k)
            if sign is None: self.C(z3.Implies(n.v<0,n.s)); self.C(z3.Implies(n.v>0,z3.Not(n.s))); self.C(n.v<=self.INF); self.C(n.v>=-self.INF)
            elif sign is False: self.C(n.v>=0); self.C(n.v<=self.INF)
            return n
        new=('v',name,k) not in self.active
        n=self._with(('v',name,k),build)
        if new: self._rep(n)
        return n
    def nan(self,k): return self.conc(k,'nan')
    def neg(self,a):
        if a.c is not None: return self.conc(a.k,conc.neg(a.c))
        key=('neg',a.b,a.fl,a.k)
        if key in self.cache: return self.cache[key]
        v=a.v.arg(0) if (z3.is_app(a.v) and a.v.decl().kind()==z3.Z3_OP_UMINUS) else -a.v
        n=N(a.b,not a.fl,a.nan,v,Not(a.s),None,a.k); self.cache[key]=n; self.cache[('neg',a.b,not a.fl,a.k)]=a
        return n
    def abs(self,a):
        if a.c is not None: return self.conc(a.k,self.cc.abs(a.c))
        if a.s is False: return a
        if a.s is True: return self.neg(a)
        key=('abs',a.b,a.k)
        if key in self.cache: return self.cache[key]
        n=N('|%s|'%(a.b,),False,a.nan,z3.If(a.s,-a.v,a.v),False,None,a.k); self.cache[key]=n
        return n
    def ite(self,c,a,b):
        if c is True: return a
        if c is False: return b
        if isinstance(c,int): return a if c else b
        if a.key()==b.key() and a.c==b.c: return a
        key=('ite',c.get_id(),a.key(),b.key())
        if key in self.cache: return self.cache[key]
        def B(x,y):
            if x is y: return x
            return Or(And(c,x),And(Not(c),y))
        self.nb+=1
        n=N('ite%d'%self.nb,False,B(a.nan,b.nan),z3.If(c,a.v,b.v),B(a.s,b.s),None,a.k); self.cache[key]=n; self.keep.append(c)
        return n
    # ---- predicates
    def isnan(self,a): return a.nan
    def _inf(self,a):
        if a.c is not None: return a.c in('inf','-inf')
        return z3.Or(a.v==self.INF,a.v==-self.INF)
    def isinf(self,a): return And(Not(a.nan),self._inf(a))
    def Fin(self,a):
        if a.c is not None: return conc.isnum(a.c)
        return And(Not(a.nan),a.v<self.INF,a.v>-self.INF)
    def zero(self,a):
        if a.c is not None: return a.c=='-0' or a.c==0
        return And(Not(a.nan),a.v==0)
    def rel(self,o,a,b):
        if a.c is not None and b.c is not None: return self.cc.cmp('o'+o,a.c,b.c)
        if a.c=='nan' or b.c=='nan': return False
        if a.key()==b.key(): return Not(a.nan) if o in('eq','le','ge') else False
        key=('rel',o,a.key(),b.key(),str(a.c),str(b.c))
        r=self.cache.get(key)
        if r is None:
            if o=='eq': x=a.v==b.v
            elif o=='lt': x=a.v<b.v
            elif o=='le': x=a.v<=b.v
            elif o=='gt': x=b.v<a.v
            else: x=b.v<=a.v
            r=And(Not(a.nan),Not(b.nan),x)
            self.cache[key]=r; self.keep.append(r)
        return r
    def cmp(self,p,a,b):
        if p in('true','false'): return p=='true'
        if p=='ord': return And(Not(a.nan),Not(b.nan))
        if p=='uno': return Or(a.nan,b.nan)
        if p[0]=='o':
            if p=='one': return And(Not(a.nan),Not(b.nan),Not(self.rel('eq',a,b)))
            return self.rel(p[1:],a,b)
        inv={'ueq':'one','une':'oeq','ugt':'ole','uge':'olt','ult':'oge','ule':'ogt'}[p]
        return Not(self.cmp(inv,a,b))
    def lt(self,a,b): return self.rel('lt',a,b)
    def le(self,a,b): return self.rel('le',a,b)
    def eq(self,a,b): return self.rel('eq',a,b)
    def same(self,a,b): return Or(self.eq(a,b),And(a.nan,b.nan))
    def signbit(self,a): return a.s
    def fpclass(self,a,mask):
        nn=Not(a.nan); c=[]
        if mask&3: c.append(a.nan)
        inf=self._inf(a); z=self.zero(a); 
        pos=Not(a.s); 
        if mask&4: c.append(And(nn,inf,a.s))
        if mask&512: c.append(And(nn,inf,pos))
        if mask&32: c.append(And(z,a.s))
        if mask&64: c.append(And(z,pos))
        m1=mask&24; m2=mask&384
        if m1 not in(0,24) or m2 not in(0,384): raise Unsupported('subnormal classification')
        if m1: c.append(And(nn,Not(inf),Not(z),a.s))
        if m2: c.append(And(nn,Not(inf),Not(z),pos))
        return Or(*c)
    def bits(self,a,k):
        if a.c is not None: return self.cc.bits(a.c,k)
        raise Unsupported('bit pattern in the order domain')
    def from_bits(self,v,k):
        if isinstance(v,int): return self.conc(k,self.cc.from_bits(v,k))
        raise Unsupported('bit pattern in the order domain')
    # ---- rounded operations
    def binop(self,op,rm,a,b):
        if a.c is not None and b.c is not None: return self.conc(a.k,self.cc.binop(op,rm,a.c,b.c,a.k))
        if op=='sub': op='add'; b=self.neg(b)
        if op=='add':
            if a.c is not None and self.zero(a): return b if a.c=='-0' or b.c is not None else self._addz(rm,b)
            if b.c is not None and self.zero(b): return a if b.c=='-0' else self._addz(rm,a)
            if rm=='dn': return self.neg(self.binop('add','up',self.neg(a),self.neg(b)))
            key=('add',rm,str(sorted([a.key(),b.key()],key=str)))
            if rm in('ne','rz'):
                nk=('add',rm,str(sorted([self.neg(a).key(),self.neg(b).key()],key=str)))
                if nk in self.store and key not in self.store: return self.neg(self.binop('add',rm,self.neg(a),self.neg(b)))
            return self._rounded(key,rm,a.k,lambda r:self._add(a,b,r))
        A,B=self.abs(a),self.abs(b)
        sneg=Xor(a.s,b.s)
        if op=='mul': bad=Or(And(self.zero(A),self._inf(B)),And(self._inf(A),self.zero(B)))
        elif op=='div': bad=Or(And(self.zero(A),self.zero(B)),And(self._inf(A),self._inf(B)))
        else: raise Unsupported('fp op '+op)
        nan=Or(a.nan,b.nan,bad)
        if sneg is False: r=self.app(op,rm,(A,B))
        elif sneg is True: r=self.neg(self.app(op,FLIP[rm],(A,B)))
        else: r=self.ite(sneg,self.neg(self.app(op,FLIP[rm],(A,B))),self.app(op,rm,(A,B)))
        return self.ite(nan,self.nan(a.k),r)
    def _addz(self,rm,a):
        """a + (+0): value a; the sign of a zero sum depends on the mode"""
        key=('addz',rm,a.key())
        if key in self.cache: return self.cache[key]
        n=N('z%s%s'%(rm,a.key()),False,a.nan,a.v,And(a.s,Or(Not(self.zero(a)),rm=='dn')),None,a.k); self.cache[key]=n
        return n
    def _rounded(self,key,rm,k,intro):
        if key in self.active: return self.active[key][0]
        box=[]
        def build():
            r=self.fresh(k,'_'.join(str(x) for x in key)); e,fin=intro(r); self._round(rm,e,r,fin); return (r,e,fin)
        # the variable must be active (its own constraints) in this path
        r=self.fresh(k,'_'.join(str(x) for x in key))
        r,e,fin=self._with(key,build)
        rd=(key,rm,e,r,fin)
        for x in self.reps:
            if x is not r and ORDER[x.k]<=ORDER[r.k]: self._pairc((key,x.b,x.k),lambda:self._rep_lemma(rm,e,r,fin,x))
        for key2,rm2,e2,r2,fin2 in self.rounds:
            if ORDER[r.k]<=ORDER[r2.k]: self._pairc((key2,r.b,r.k),lambda:self._rep_lemma(rm2,e2,r2,fin2,r))
        self.rounds.append(rd)
        return r
    def _add(self,a,b,r):
        fa,fb=self.Fin(a),self.Fin(b)
        bad=And(self._inf(a),self._inf(b),Xor(a.s,b.s))
        nan=Or(a.nan,b.nan,bad)
        self.C(Iff(r.nan,nan))
        self.C(Implies(And(Not(nan),self._inf(a)),r.v==a.v)); self.C(Implies(And(Not(nan),self._inf(b)),r.v==b.v))
        if a.k==b.k==r.k:      # a sum of two numbers of one format is a multiple of the smallest one: never rounded to zero
            e=a.v+b.v; ok=And(fa,fb); self.C(Implies(And(ok,e>0),r.v>0)); self.C(Implies(And(ok,e<0),r.v<0)); self.C(Implies(And(ok,e==0),r.v==0))
        return a.v+b.v,And(fa,fb)
    def _round(self,rm,e,r,fin):
        """r = rounding of the real e (when fin)"""
        I=self.INF
        if rm=='up': self.C(Implies(fin,And(Or(r.v>=e,r.v==I),r.v>-I)))
        if rm=='dn': self.C(Implies(fin,And(Or(r.v<=e,r.v==-I),r.v<I)))
        if rm=='rz': self.C(Implies(fin,And(r.v<I,r.v>-I,Implies(e>=0,And(r.v<=e,r.v>=0)),Implies(e<=0,And(r.v>=e,r.v<=0)))))
    def _rep_lemma(self,rm,e,r,fin,x):
        ok=And(fin,self.Fin(x))
        for v in (x.v,-x.v) if x.c is None or x.c!=0 else (x.v,):
            if rm in('up','ne','rz'): self.C(Implies(And(ok,v>=e),v>=r.v))
            if rm in('dn','ne','rz'): self.C(Implies(And(ok,v<=e),v<=r.v))
    def app(self,op,rm,args):
        ks=[(a.key(),str(a.c)) for a in args]
        if op=='mul': ks=sorted(ks,key=str)
        key=(op,rm,args[0].k,str(ks))
        if key in self.active: return self.active[key]
        if all(a.c is not None for a in args):
            k=args[0].k
            if op in('mul','div'): c=self.cc.binop(op,rm,args[0].c,args[1].c,k)
            elif op=='sqrt': c=self.cc.sqrt(rm,args[0].c,k)
            elif op=='rint': c=self.cc.rint(rm,args[0].c)
            else: c=self.cc.libm(op,rm,args[0].c,k)
            r=self.conc(k,c); self.active[key]=r
            if c=='nan': return r
        else:
            nm='%s_%s_%s'%(op,rm,ks)
            mk=lambda: self.fresh(args[0].k,nm,nan=op not in('mul','div'),sign=False if op in('mul','div') else None)
            r=mk()
            def build():
                self._intro(op,rm,args,r); return r
            self._with(key,build)
        for ap in self.apps:
            if ap[0]==op: self._pairc((key,ap[4]) ,lambda:self._pair(op,rm,args,r,ap[1],ap[2],ap[3]))
        self.apps.append((op,rm,args,r,key))
        for key2,rm2,e2,r2,fin2 in self.rounds:
            if ORDER[r.k]<=ORDER[r2.k]: self._pairc((key2,r.b,r.k),lambda:self._rep_lemma(rm2,e2,r2,fin2,r))
        return r
    def _intro(self,op,rm,args,r):
        I=self.INF; C=self.C
        if op=='mul':
            a,b=args; za,zb,ia,ib=self.zero(a),self.zero(b),self._inf(a),self._inf(b)
            ok=And(Not(a.nan),Not(b.nan),Not(And(za,ib)),Not(And(ia,zb)))
            C(Implies(And(ok,Or(za,zb)),r.v==0)); C(Implies(And(ok,Or(ia,ib)),r.v==I))
            for x,y in((a,b),(b,a)):
                C(Implies(And(ok,x.v<=1),r.v<=y.v)); C(Implies(And(ok,x.v>=1),r.v>=y.v))
            if rm=='up': C(Implies(And(ok,a.v>0,b.v>0),r.v>0))
            if rm in('dn','rz'): C(Implies(And(self.Fin(a),self.Fin(b)),r.v<I))
        elif op=='div':
            a,b=args; za,zb,ia,ib=self.zero(a),self.zero(b),self._inf(a),self._inf(b)
            ok=And(Not(a.nan),Not(b.nan),Not(And(za,zb)),Not(And(ia,ib)))
            C(Implies(And(ok,Or(za,ib)),r.v==0)); C(Implies(And(ok,Or(ia,zb)),r.v==I))
            C(Implies(And(ok,b.v>=1),r.v<=a.v)); C(Implies(And(ok,b.v<=1),r.v>=a.v))
            C(Implies(And(ok,a.v<=b.v),r.v<=1)); C(Implies(And(ok,a.v>=b.v),r.v>=1))
            if b.c in(2,4): C(Implies(And(ok,a.v>=1,self.Fin(a)),r.v==a.v/int(b.c)))      # exact: far from underflow
            if rm=='up': C(Implies(And(ok,a.v>0,self.Fin(b)),r.v>0))
            if rm in('dn','rz'): C(Implies(And(ok,self.Fin(a),b.v>0),r.v<I))
        elif op=='sqrt':
            a,=args
            C(Iff(r.nan,Or(a.nan,a.v<0))); C(Implies(And(Not(a.nan),a.v==0),And(r.v==0,Iff(r.s,a.s))))
            C(Implies(And(Not(r.nan),a.v>0),And(r.v>0,Not(r.s)))); C(Implies(And(Not(a.nan),a.v==I),r.v==I))
            C(Implies(And(Not(r.nan),a.v<I),r.v<I))
            C(Implies(And(Not(r.nan),a.v>=1),And(r.v<=a.v,r.v>=1))); C(Implies(And(Not(r.nan),a.v<=1),And(r.v>=a.v,r.v<=1)))
        elif op=='rint':
            a,=args
            C(Iff(r.nan,a.nan)); C(Iff(r.s,a.s)); C(Implies(self._inf(a),r.v==a.v)); C(Implies(self.Fin(a),self.Fin(r)))
            if rm=='dn': C(Implies(self.Fin(a),And(r.v<=a.v,a.v<r.v+1)))
            elif rm=='up': C(Implies(self.Fin(a),And(r.v>=a.v,a.v>r.v-1)))
            elif rm=='rz': C(Implies(self.Fin(a),z3.If(a.v>=0,z3.And(r.v<=a.v,r.v>=0,a.v<r.v+1),z3.And(r.v>=a.v,r.v<=0,a.v>r.v-1))))
            else: C(Implies(self.Fin(a),And(2*(r.v-a.v)<=1,2*(a.v-r.v)<=1)))
            # integers in play
            for x in (-2,-1,0,1,2):
                C(Implies(And(self.Fin(a),a.v<=x),r.v<=x)); C(Implies(And(self.Fin(a),a.v>=x),r.v>=x))
                C(Or(r.nan,r.v<=x,r.v>=x+1))
        else:
            d=LIBM.get(op)
            if not d: raise Unsupported('libm '+op)
            a,=args
            dom=[Not(a.nan)]
            V=lambda t:I if t=='inf' else -I if t=='-inf' else Q(F(t))
            if 'lo' in d: dom.append(a.v>=V(d['lo']))
            if 'hi' in d: dom.append(a.v<=V(d['hi']))
            dm=And(*dom)
            if d.get('infnan'): dm=And(dm,self.Fin(a))
            C(Iff(r.nan,Not(dm)))
            for x,y in d.get('pts',[]): C(Implies(And(Not(a.nan),a.v==V(x)),r.v==V(y)))
            if 'rlo' in d: C(Implies(dm,r.v>=V(d['rlo'])))
            if 'rhi' in d: C(Implies(dm,r.v<=V(d['rhi'])))
            if d.get('sgn'): C(Implies(And(dm,a.v>=0),r.v>=0)); C(Implies(And(dm,a.v<=0),r.v<=0))
    PAIR={('dn','ne'),('ne','up'),('dn','up'),('dn','rz'),('rz','up'),('dn','dn'),('ne','ne'),('up','up'),('rz','rz')}
    def _pair(self,op,rm,a,r,rm2,a2,r2):
        if r.k!=r2.k and op!='rint': return       # the integer does not depend on the format
        self._mono(op,rm,a,r,rm2,a2,r2); self._mono(op,rm2,a2,r2,rm,a,r)
    def _mono(self,op,rm,a,r,rm2,a2,r2):
        if op not in('mul','div','sqrt','rint') and (rm,rm2)==('rz','up'): pass
        if op=='rint' and FLIP[rm]==rm2:
            self.C(Implies(And(Not(r.nan),Not(r2.nan),a[0].v<=-a2[0].v),r.v<=-r2.v)); self.C(Implies(And(Not(r.nan),Not(r2.nan),a[0].v>=-a2[0].v),r.v>=-r2.v))
        if (rm,rm2) not in self.PAIR: return
        if ('rz' in (rm,rm2)) and rm!=rm2 and op not in('mul','div','sqrt'): return
        C=self.C
        if op=='mul':
            bad=lambda x:Or(And(self.zero(x[0]),self._inf(x[1])),And(self._inf(x[0]),self.zero(x[1])))
            g=Or(And(a[0].v<=a2[0].v,a[1].v<=a2[1].v),And(a[0].v<=a2[1].v,a[1].v<=a2[0].v))
            C(Implies(And(g,*[Not(x.nan) for x in a+a2],Not(bad(a)),Not(bad(a2))),r.v<=r2.v))
        elif op=='div':
            bad=lambda x:Or(And(self.zero(x[0]),self.zero(x[1])),And(self._inf(x[0]),self._inf(x[1])))
            C(Implies(And(a[0].v<=a2[0].v,a[1].v>=a2[1].v,*[Not(x.nan) for x in a+a2],Not(bad(a)),Not(bad(a2))),r.v<=r2.v))
        elif op in('sqrt','rint'):
            C(Implies(And(Not(r.nan),Not(r2.nan),a[0].v<=a2[0].v),r.v<=r2.v))
        else:
            d=LIBM[op]; x,y=a[0].v,a2[0].v; ok=And(Not(r.nan),Not(r2.nan))
            if d.get('mono'): C(Implies(And(ok,(x<=y) if d['mono']>0 else (x>=y)),r.v<=r2.v))
            elif d.get('even')=='inc': C(Implies(And(ok,self.abs(a[0]).v<=self.abs(a2[0]).v),r.v<=r2.v))
            else:
                c=x==y
                if d.get('even'): c=Or(c,x==-y)
                C(Implies(And(ok,c),r.v<=r2.v))
    def sqrt(self,rm,a): return self.app('sqrt',rm,(a,))
    def rint(self,rm,a):
        if a.c is not None: return self.conc(a.k,self.cc.rint(rm,a.c))
        return self.app('rint',rm,(a,))
    def fma(self,rm,a,b,c): raise Unsupported('fma')
    def libm(self,name,rm,a,k):
        d=LIBM.get(name,{})
        if a.fl and a.c is None:
            if d.get('odd'): return self.neg(self.libm(name,FLIP[rm],self.neg(a),k))
            if d.get('even'): a=self.neg(a)
        return self.app(name,rm,(a,))
    def cvt(self,rm,a,frm,to):
        if a.c is not None: return self.conc(to,self.cc.cvt(rm,a.c,frm,to))
        if ORDER[to]>=ORDER[frm]:
            key=('ext',a.key(),to)
            if key in self.cache: return self.cache[key]
            n=N('%s>%s'%(str(a.b),to),a.fl,a.nan,a.v,a.s,None,to); self.cache[key]=n; return n
        if rm=='dn': return self.neg(self.cvt('up',self.neg(a),frm,to))
        key=('cvt',rm,str(a.key()),to)
        if rm in('ne','rz'):
            k2=('cvt',rm,str(self.neg(a).key()),to)
            if k2 in self.store and key not in self.store: return self.neg(self.cvt(rm,self.neg(a),frm,to))
        def intro(r):
            self.C(Iff(r.nan,a.nan)); self.C(Implies(And(Not(a.nan),self._inf(a)),r.v==a.v)); self.C(Implies(Not(a.nan),Iff(r.s,a.s)))
            return a.v,self.Fin(a)
        return self._rounded(key,rm,to,intro)
    def from_int(self,rm,v,width,signed,to):
        if isinstance(v,int): return self.conc(to,self.cc.from_int(rm,v,width,signed,to))
        # a symbolic integer is an integer-valued real in its range; the bit-vector itself is not constrained
        if not (z3.is_const(v) and v.decl().kind()==z3.Z3_OP_UNINTERPRETED): raise Unsupported('conversion of a computed integer in the order domain')
        nm=v.decl().name(); iv=z3.Int(nm+'!i'); rv=z3.ToReal(iv); lo=-(1<<(width-1)) if signed else 0; hi=(1<<(width-1))-1 if signed else (1<<width)-1
        def build():
            self.C(And(iv>=lo,iv<=hi)); self.C(self.INF>Q(F(hi))) 
            return N(('int',nm),False,False,rv,rv<0,None,'int')
        a=self._with(('int',nm,width,signed),build); self.ints[nm]=iv
        if width<=FPSORT[to][1]:
            key=('ext',a.key(),to)
            n=self.cache.get(key)
            if n is None: n=N(('int',nm,to),False,False,rv,rv<0,None,to); self.cache[key]=n
            if ('intrep',nm,to) not in self.active: self.active[('intrep',nm,to)]=n; self._rep(n)
            return n
        return self.cvt(rm,a,'int',to)
    def to_int(self,a,w,s): raise Unsupported('fp to int in the order domain')
    # ---- models
    def model_value(self,m,a):
        """value of an input in a model: 'nan' | 'inf' | '-inf' | '-0' | Fraction"""
        if a.c is not None: return a.c
        ev=lambda e: m.eval(e,model_completion=True)
        if a.nan is True or (a.nan is not False and z3.is_true(ev(a.nan))): return 'nan'
        v=ev(a.v).as_fraction(); I=ev(self.INF).as_fraction()
        if v==I: return 'inf'
        if v==-I: return '-inf'
        if v==0: return '-0' if (a.s is True or (a.s is not False and z3.is_true(ev(a.s)))) else F(0)
        return v

# -------------------------------------------------------------------------------------------------
class OrdPow(Ord):
    """Ord with the integer powers of one unconstrained real number x: P[j]=|x|^j and R[j]=1/|x|^j are reals known only
    through the facts a rounded product or reciprocal has about them, such as
    a<=|x|^i and b<=|x|^j  ->  down(a*b)<=|x|^(i+j)   (each an instance of monotonicity of multiplication)."""
    def __init__(self,exps): 
        self.exps=sorted(set(exps)|{0,1}); super().__init__()
    def describe(self): return super().describe()+', with the powers of an arbitrary real point'
    def reset(self):
        super().reset()
        self.gx=z3.Real('gx!'); self.P={j:z3.Real('P!%d'%j) for j in self.exps}; self.R={j:z3.Real('R!%d'%j) for j in self.exps}
        C=self.cons.append; P,R=self.P,self.R
        C(P[0]==1); C(R[0]==1); C(P[1]==z3.If(self.gx<0,-self.gx,self.gx))
        for j in self.exps:
            C(P[j]>=0); C(z3.Implies(P[1]==0,P[j]==0) if j else True)
            C(z3.Implies(P[1]>0,P[j]>0)); C(z3.Implies(P[1]>0,R[j]>0))
            C((P[j]<=1)==(P[1]<=1) if j else True); C((P[j]>=1)==(P[1]>=1) if j else True)
            C(z3.Implies(P[1]>0,(R[j]<=1)==(P[j]>=1))); C(z3.Implies(P[1]>0,(R[j]>=1)==(P[j]<=1)))
        self.cons=[c for c in self.cons if c is not True]
    def _pair(self,op,*a):
        if op not in('mul','div'): super()._pair(op,*a)      # the facts about powers take their place
    def ge(self,a,p): return z3.Or(a.v>=p,a.v==self.INF)
    def lo(self,a,p): return z3.And(a.v<=p,a.v<self.INF)
    def _intro(self,op,rm,args,r):
        super()._intro(op,rm,args,r)
        C=self.C; X=z3.And(self.P[1]>0)
        if op=='mul':
            a,b=args; za,zb,ia,ib=self.zero(a),self.zero(b),self._inf(a),self._inf(b)
            ok=And(Not(a.nan),Not(b.nan),Not(And(za,ib)),Not(And(ia,zb)))
            for i in self.exps:
                for j in self.exps:
                    for T,U,g,h in((self.P,self.P,i,j),(self.R,self.R,i,j)):
                        if i==0 and j==0 or i+j not in T: continue
                        g=True if T is self.P else X
                        if rm in('up',): C(Implies(And(ok,g,self.ge(a,T[i]),self.ge(b,T[j])),self.ge(r,T[i+j])))
                        if rm in('dn','rz'): C(Implies(And(ok,g,self.lo(a,T[i]),self.lo(b,T[j])),self.lo(r,T[i+j])))
        if op=='div' and args[0].c==1:
            b=args[1]; ok=And(Not(b.nan),X)
            for j in self.exps:
                for T,U in((self.P,self.R),(self.R,self.P)):
                    if rm=='up': C(Implies(And(ok,self.lo(b,T[j])),self.ge(r,U[j])))
                    if rm in('dn','rz'): C(Implies(And(ok,self.ge(b,T[j])),self.lo(r,U[j])))
    # the power of the ghost point as (sign, magnitude), and comparison of a number with it
    def encl(self,lo,hi,k):
        """x^k within [lo,hi]"""
        m=self.P[k] if k>=0 else self.R[-k]
        up=lambda n,v:z3.Or(n.v>=v,n.v==self.INF); dn=lambda n,v:z3.Or(n.v<=v,n.v==-self.INF)
        both=lambda v:And(Not(lo.nan),Not(hi.nan),dn(lo,v),up(hi,v),z3.Not(lo.v==self.INF),z3.Not(hi.v==-self.INF))
        return Ite(self.gx<0,both(-m),both(m)) if k&1 else both(m)
    def inX(self,l,u): return And(z3.Or(l.v<=self.gx,l.v==-self.INF),z3.Or(self.gx<=u.v,u.v==self.INF))
# -------------------------------------------------------------------------------------------------
def Q_(f): return Q(F(f))
class OrdRoot(Ord):
    """Ord with the real k-th roots rho(n) of the inputs and of their rounded reciprocals as ghost numbers.  The public
    interval operations called by the root algorithm (+ - * / pow median) are replaced by their contracts (they are decided
    on their own by the checks of C02, C03, C06 and C13): a result encloses the value of the operation at every pair of
    ghost elements enclosed by the operands.  Ghost elements: rho, every degenerate interval's element y, and the mean value
    c between y and rho, which satisfies (y^k-n)/(k c^(k-1)) = y-rho."""
    CONTRACTS=('sub','add','mul','div','pow','median')
    def __init__(self,k,roots):
        self.k=k; self.rootnames=set(roots); super().__init__()
    def describe(self): return super().describe()+', with the real %d-th roots of the inputs and contracts for the interval operations'%self.k
    def reset(self):
        super().reset(); self.gh={}; self.divs=[]; self.elems={}; self.terms={}; self.triples=[]; self.used=set(); self.alias={}
    def _pair(self,op,*a):
        if op not in('mul','div'): super()._pair(op,*a)
    def ge(self,a,p): return z3.Or(a.v>=p,a.v==self.INF)
    def lo(self,a,p): return z3.And(a.v<=p,a.v<self.INF)
    def mem(self,lo,hi,t): return And(Not(lo.nan),Not(hi.nan),z3.Or(lo.v<=t,lo.v==-self.INF),z3.Or(hi.v>=t,hi.v==self.INF),lo.v<self.INF,hi.v>-self.INF)
    def fresh(self,k,name,nan=True,sign=None):
        n=super().fresh(k,name,nan,sign)
        if name in self.rootnames:
            a=self.abs(n); self.alias[a.key()]=[(n.v,n.v>=0),(self.neg(n).v,n.v<=0)]; self.ghost(a)
        return n
    def ghost(self,n):
        key=n.key()
        if key in self.gh: return self.gh[key]
        nm=str(key); r=z3.Real('root!'+nm); q=z3.Real('iroot!'+nm); self.gh[key]=(n,r,q)
        f=And(self.Fin(n),n.v>=0)
        def build():
            C=self.C
            C(Implies(f,And(r>=0,Iff(r==0,n.v==0),Implies(n.v>=1,And(r>=1,r<=n.v)),Implies(n.v<=1,And(r<=1,r>=n.v)))))
            C(Implies(And(f,n.v>0),And(q>0,Iff(q>=1,r<=1),Iff(q<=1,r>=1))))
        self._pairc(('ghost',key),build)
        for k2,(m,r2,q2) in list(self.gh.items()):
            if k2!=key: self._pairc(('gg',key,k2),lambda:self.C(Implies(And(f,self.Fin(m),m.v>=0),And(Iff(n.v<=m.v,r<=r2),Iff(n.v>=m.v,r>=r2)))))
        for a,rr,key2,rm in self.divs: self._pairc(('gd',key,key2),lambda:self.recip(rm,a,rr,r,q,f))
        return self.gh[key]
    def recip(self,rm,a,rr,r,q,f):
        if a[0].c!=1: return
        b=a[1]; ok=And(Not(b.nan),f,r>0)
        if rm=='up': self.C(Implies(And(ok,self.lo(b,q)),self.ge(rr,r))); self.C(Implies(And(ok,self.lo(b,r)),self.ge(rr,q)))
        if rm in('dn','rz'): self.C(Implies(And(ok,self.ge(b,q)),self.lo(rr,r))); self.C(Implies(And(ok,self.ge(b,r)),self.lo(rr,q)))
    def app(self,op,rm,args):
        r=super().app(op,rm,args); key=('rt',op,rm,str([(a.key(),str(a.c)) for a in args]))
        if op!='div' or key in self.used or all(a.c is not None for a in args): return r
        self.used.add(key); self.divs.append((args,r,key,rm))
        for kk,(n,rr,q) in list(self.gh.items()): self._pairc(('gd',kk,key),lambda:self.recip(rm,args,r,rr,q,And(self.Fin(n),n.v>=0)))
        if args[0].c==1 and args[1].key() in self.gh and str(args[1].key()[0]).split('@')[0].strip("|('") in self.rootnames:
            n,rr,q=self.gh[args[1].key()]; g=self.ghost(r)
            def build():
                ok=And(self.Fin(n),n.v>0,self.Fin(r))
                if rm=='up': self.C(Implies(ok,g[1]>=q))
                if rm in('dn','rz'): self.C(Implies(ok,g[1]<=q))
            self._pairc(('rg',key),build)
        return r
    def binop(self,op,rm,a,b):
        r=super().binop(op,rm,a,b)
        if op=='div' and a.c in(1,-1) and b.c is None:      # names under which a radicand can turn up; guarded by equality
            for x in (r,self.neg(r)):
                for key,(g,rr,q) in list(self.gh.items()):
                    if not str(key[0]).startswith('div_'): continue
                    al=self.alias.setdefault(key,[])
                    if all(not v.eq(x.v) for v,_ in al): al.append((x.v,x.v==g.v))
        return r
    # ---- contracts of the interval operations.  Terms are real-valued elements; self.terms[interval] lists candidates.
    def ikey(self,I): return (I[0].key(),str(I[0].c),I[1].key(),str(I[1].c))
    def cand(self,I):
        """real terms that may be elements of the interval"""
        t=list(self.terms.get(self.ikey(I),()))
        if self.ikey((I[0],I[0]))==self.ikey(I): t.append(('v',I[0].v)); return t
        t+=[('rho',str(k)) for k in self.gh]+[('c',)+e for e in self.elems]
        return t
    def real(self,t):
        if t[0]=='v': return t[1]
        if t[0]=='rho': return next(g[1] for k,g in self.gh.items() if str(k)==t[1])
        if t[0]=='c': return self.elems[t[1:]]
        if t[0]=='pw': return self.real(t[1]) if t[2]==1 else z3.Real('pw!%s!%d'%(self.tkey(t[1]),t[2]))
        if t[0] in('sub','add'): a,b=self.real(t[1]),self.real(t[2]); return a-b if t[0]=='sub' else a+b
        if t[0]=='cmul': return Q_(t[1])*self.real(t[2])
        raise KeyError(t)
    def tkey(self,t): return self.short('_'.join(self.tkey(x) if isinstance(x,tuple) else str(x) for x in t))
    def short(self,nm):
        if len(nm)<40: return nm
        return self.names.setdefault(nm,'%s#%d'%(nm[:nm.find('(')] if 0<nm.find('(')<12 else 't',len(self.names)))
    def isum(self,op,k,args,m=None):
        """result interval of an operation on intervals; returns (lo,hi)"""
        nm='I%s%s_%s'%(op,'' if m is None else m,'_'.join(str(self.ikey(a)) for a in args)); nm=self.short(nm)
        lo=self.fresh(k,nm+'.l',nan=False); hi=self.fresh(k,nm+'.u',nan=False); R=(lo,hi)
        if nm in self.used: return R
        self.used.add(nm)
        self._pairc(('wf',nm),lambda:self.C(And(lo.v<=hi.v,lo.v<self.INF,hi.v>-self.INF)))
        out=self.terms.setdefault(self.ikey(R),[])
        if op=='pow':
            A,=args
            for t in self.cand(A):
                if t[0] not in('v','c','rho'): continue
                x=self.real(t); w=('pw',t,m); pw=self.real(w); out.append(w)
                def build():
                    self.C(And(Implies(x>=0,pw>=0),Implies(x>0,pw>0),Implies(self.mem(A[0],A[1],x),self.mem(lo,hi,pw))))
                self._pairc(('pw',nm,t),build)
                if t[0]=='v' and m==self.k:
                    for key,(n,r,q) in self.gh.items(): self.mean(A[0],t,w,n,r,str(key))
        elif op in('sub','add'):
            A,B=args
            for t in self.cand(A):
                for u in self.cand(B):
                    if len(out)>40: break
                    w=(op,t,u); x=self.real(w); out.append(w)
                    self._pairc(('m',nm,w),lambda:self.C(Implies(And(self.mem(A[0],A[1],self.real(t)),self.mem(B[0],B[1],self.real(u))),self.mem(lo,hi,x))))
        elif op=='mul':
            for A,B in (args,args[::-1]):
                if A[0].c is None or self.ikey((A[0],A[0]))!=self.ikey(A) or not conc.isnum(A[0].c): continue
                c=conc.val(A[0].c)
                for u in self.cand(B):
                    w=('cmul',str(c),u); out.append(w)
                    self._pairc(('m',nm,w),lambda:self.C(Implies(self.mem(B[0],B[1],self.real(u)),self.mem(lo,hi,self.real(w)))))
                break
        elif op=='div':
            A,B=args; ca,cb=self.cand(A),self.cand(B)
            for N_,Dn,Qt,g in self.triples:
                if N_ in ca and Dn in cb:
                    out.append(Qt)
                    self._pairc(('m',nm,N_,Dn),lambda:self.C(Implies(And(g,self.mem(A[0],A[1],self.real(N_)),self.mem(B[0],B[1],self.real(Dn)),self.real(Dn)!=0),self.mem(lo,hi,self.real(Qt)))))
        return R
    def mean(self,y,t,w,n,r,nk):
        """a mean value between y and the root"""
        e=(self.tkey(t),nk)
        c=self.elems[e]=z3.Real('mean!%s!%s'%e)
        f=And(self.Fin(n),n.v>0,y.v>0)
        def build(): self.C(Implies(f,And(Implies(y.v>=r,And(c>=r,c<=y.v)),Implies(y.v<=r,And(c<=r,c>=y.v)))))
        self._pairc(('mean',e),build)
        ct=('c',)+e; dt=('cmul',str(F(self.k)),('pw',ct,self.k-1)) if self.k>2 else ('cmul','2',('pw',ct,1))
        self._pairc(('pwc',e),lambda:self.C(Implies(And(f,c>0),self.real(('pw',ct,self.k-1))>0)))
        for v,g in [(n.v,True)]+self.alias.get(n.key(),[]):
            self.triples.append((('sub',w,('v',v)),dt,('sub',t,('rho',nk)),g))
import re,subprocess
class Contracts(dict):
    """replaces calls of public interval operations by their contracts (OrdRoot.isum); anything else runs the real code"""
    OPS={'mi':'sub','pl':'add','ml':'mul','dv':'div','3pow':'pow','6median':'median','4fmod':'fmod','mI':'sub','pI':'add'}
    pat=re.compile(r'^_ZN5boost7numeric(mi|pl|ml|dv|3pow|6median|4fmod)I([fde])')
    mpat=re.compile(r'^_ZN5boost7numeric8intervalI([fde]).*E(mI|pI)ERK')
    memo={}
    def params(self,name):
        p=self.memo.get(name)
        if p is None:
            d=subprocess.run(['c++filt',name],stdout=subprocess.PIPE,text=True).stdout.strip()
            depth=0; ps=[]; cur=''
            i=len(d)-1
            assert d[i]==')'
            # the last parenthesised group
            j=i; dep=0
            while True:
                if d[j] in ')>': dep+=1
                elif d[j] in '(<': dep-=1
                if dep==0: break
                j-=1
            for ch in d[j+1:i]:
                if ch in '<(': depth+=1
                if ch in '>)': depth-=1
                if ch==',' and not depth: ps.append(cur.strip()); cur=''
                else: cur+=ch
            ps.append(cur.strip()); p=self.memo[name]=ps
        return p
    def get(self,name,default=None):
        m=self.pat.match(name); mem=False
        if m: op,ty=m.groups()
        else:
            m=self.mpat.match(name); mem=True
            if not m: return super().get(name,default)
            ty,op=m.groups()
        op=self.OPS[op]
        return lambda ex,args,ins: self.run(ex,args,ins,name,op,{'f':'float','d':'double','e':'x86_fp80'}[ty],mem)
    def run(self,ex,args,ins,name,op,k,mem):
        real=lambda: ex.call(ex.m.funcs[name],args)
        D=ex.D
        if not hasattr(D,'isum') or op not in D.CONTRACTS: return real()
        unprot='save_state_unprotected' in name; opp='_opp' in name
        if unprot and opp and not(isinstance(ex.mode,int) and ex.mode==0x800): return real()
        ps=self.params(name)
        a=list(args); dest=None
        if mem: dest=a[0]; ps=['interval<>&']+ps
        elif op!='median': dest=a.pop(0)
        import symex; from runner import TY
        ty=TY[k]
        vals=[]; m=None
        for p,x in zip(ps,a):
            if 'interval<' in p:
                vals.append((ex.load(x,ty),ex.load(symex.Ptr(x.o,x.off+ty.size),ty)))
            elif p in('int',): m=x
            else:
                v=ex.load(x,ty) if '&' in p else x; vals.append((v,v))
        if op=='pow' and (not isinstance(m,int) or not 0<m<1000): return real()
        ok=And(*[And(Not(l.nan),Not(u.nan),D.le(l,u),Not(D.eq(l,D.num(k,'inf'))),Not(D.eq(u,D.num(k,'-inf')))) for l,u in vals])
        if op=='div': ok=And(ok,Not(And(D.zero(vals[1][0]),D.zero(vals[1][1]))))
        if hasattr(D,'applies') and not D.applies(op,k,vals): return real()
        if not ex.truth(ok): return real()
        if unprot and not opp:
            ex.nsym+=1; ex.mode=z3.BitVec('mode_after!%d'%ex.nsym,32); ex.assume(z3.Or([ex.mode==v for v in (0,0x400,0x800,0xc00)]))
        ex.functions.add(name+' (contract)')
        if op=='median':
            (l,u),=vals
            r=D.fresh(k,D.short('med_%s'%str(D.ikey((l,u)))),nan=False)
            D._pairc(('med',r.key()),lambda:D.C(And(r.v>=l.v,r.v<=u.v,r.v<D.INF,r.v>-D.INF)))
            return r
        lo,hi=D.isum(op,k,vals,m)
        ex.store(dest,lo,ty); ex.store(symex.Ptr(dest.o,dest.off+ty.size),hi,ty)
        return dest if mem else None
# -------------------------------------------------------------------------------------------------
class OrdFmod(Ord):
    """Ord with the facts that tie a quotient to a product with the same divisor (c <= a/b gives c*b <= a) and with the
    real products n*y of a factor n and one arbitrary real y in Y"""
    def __init__(self): super().__init__()
    def reset(self):
        super().reset(); self.ms=[]; self.ds=[]; self.pr={}; self.seenapp=set(); self.gx=z3.Real('gx!'); self.gy=z3.Real('gy!')
    def app(self,op,rm,args):
        r=super().app(op,rm,args)
        key=(op,rm,str([(a.key(),str(a.c)) for a in args]))
        if op not in('mul','div') or key in self.seenapp: return r
        self.seenapp.add(key)
        if op=='mul':
            self.ms.append((rm,args,r,key))
            for d in self.ds: self._pairc(('x',key,d[3]),lambda:self.cross(d,(rm,args,r)))
            for k,(c,p) in list(self.pr.items()): self._pairc(('pr',key,k),lambda:self.pmul((rm,args,r),c,p))
        else:
            self.ds.append((rm,args,r,key))
            for m in self.ms: self._pairc(('x',m[3],key),lambda:self.cross((rm,args,r,key),m))
        return r
    def cross(self,d,m):
        rd,(A,B),q=d[0],d[1],d[2]; rm,ms,r=m[0],m[1],m[2]
        for c,b in (ms,ms[::-1]):
            ok=And(self.Fin(A),self.Fin(B),B.v>0,self.Fin(c),self.Fin(b),b.v==B.v)
            if rd=='dn': self.C(Implies(And(ok,c.v<=q.v),r.v<=A.v))
            if rd=='up': self.C(Implies(And(ok,c.v>=q.v),r.v>=A.v))
    def pmul(self,m,c,p):
        rm,ms,r=m
        for a,b in (ms,ms[::-1]):
            ok=And(self.Fin(c),Not(a.nan),Not(b.nan),a.v==c.v)
            if rm=='up': self.C(Implies(And(ok,b.v>=self.gy),r.v>=p))
            if rm=='dn': self.C(Implies(And(ok,b.v<=self.gy),r.v<=p))
            if a.key()==b.key(): break
    def prod(self,n):
        """the real |n|*gy for the positive ghost gy"""
        c=self.abs(n); k=(c.key(),str(c.c))
        if k not in self.pr:
            p=z3.Real('P!%s'%str(k)); self.pr[k]=(c,p)
            self._pairc(('p',k),lambda:self.C(Implies(self.Fin(c),And(p>=0,Implies(c.v==0,p==0),Implies(c.v==1,p==self.gy)))))
            for m in self.ms: self._pairc(('pr',m[3],k),lambda:self.pmul(m[:3],c,p))
        return z3.If(n.v<0,-self.pr[k][1],self.pr[k][1])
# -------------------------------------------------------------------------------------------------
class OrdTrig(Ord):
    """Ord with one arbitrary real angle g and the angles the argument reduction derives from it.  Each derived angle is a
    real number a with the values cos a, sin a, tan a expressed by those of g.  Subtraction of an interval that contains
    pi/2, pi or 2 pi and the interval remainder by one that contains pi or 2 pi are replaced by their contracts (decided by
    the checks of C02 and C09); the base functions cos and tan are the correctly rounded real functions, known through
    monotonicity on [0,pi] and (-pi/2,pi/2), periodicity and symmetry."""
    CONTRACTS=('sub','fmod')
    PIL,PIU=F(31415926535897932384626433832795028841971,10**40),F(31415926535897932384626433832795028841972,10**40)
    def __init__(self,pole=False): self.pole=pole; super().__init__()
    def describe(self): return super().describe()+', with the angles derived from an arbitrary real angle'
    def reset(self):
        super().reset()
        self.PI=z3.Real('pi!'); self.cons+=[self.PI>Q(self.PIL),self.PI<Q(self.PIU)]
        c,s,t=z3.Reals('cos_g! sin_g! tan_g!'); self.g=z3.Real('angle!')
        self.cons+=[c>=-1,c<=1,s>=-1,s<=1,t<self.INF,t>-self.INF]
        self.ang={}; self.terms={}; self.fn=[]; self.used=set(); self.tcnt=0
        self.base=self.angle('g',self.g,c,s,t)
    def angle(self,key,a,c,s,t):
        if key in self.ang: return key
        self.ang[key]=(a,c,s,t)
        for f in self.fn: self._pairc(('af',key,f[0]),lambda:self.rel_fn(f,self.ang[key]))
        return key
    def mem(self,lo,hi,t): return And(Not(lo.nan),Not(hi.nan),z3.Or(lo.v<=t,lo.v==-self.INF),z3.Or(hi.v>=t,hi.v==self.INF),lo.v<self.INF,hi.v>-self.INF)
    ikey=OrdRoot.ikey; short=OrdRoot.short
    def _round(self,rm,e,r,fin):
        super()._round(rm,e,r,fin); self.C(Implies(And(fin,e<=0),r.v<=0)); self.C(Implies(And(fin,e>=0),r.v>=0))     # 0 is a value
    def mult(self,B,qs):
        """the multiple q of pi that the constant interval B contains"""
        if B[0].c is None or B[1].c is None or not conc.isnum(B[0].c) or not conc.isnum(B[1].c): return None
        l,u=conc.val(B[0].c),conc.val(B[1].c)
        for q in qs:
            if l<=q*self.PIL and q*self.PIU<=u: return q
    def applies(self,op,k,vals): return self.mult(vals[1],(F(1,2),F(1),F(2)) if op=='sub' else (F(1),F(2))) is not None
    def isum(self,op,k,args,m=None):
        A,B=args; q=self.mult(B,(F(1,2),F(1),F(2)) if op=='sub' else (F(1),F(2)))
        nm=self.short('I%s%s_%s'%(op,q,'_'.join(str(self.ikey(a)) for a in args)))
        lo=self.fresh(k,nm+'.l',nan=False); hi=self.fresh(k,nm+'.u',nan=False); R=(lo,hi)
        if nm in self.used: return R
        self.used.add(nm)
        self._pairc(('wf',nm),lambda:self.C(And(lo.v<=hi.v,lo.v<self.INF,hi.v>-self.INF,*([lo.v>=0] if op=='fmod' else []))))
        out=self.terms.setdefault(self.ikey(R),[])
        for t in self.terms.get(self.ikey(A)) or [self.base]:
            a,c,s,tn=self.ang[t]; key='%s-%s%s'%(t,op,q)
            if op=='sub':
                a2=a-Q(q)*self.PI; neg=lambda v:None if v is None else -v
                new={F(1,2):(a2,s,neg(c),None),F(1):(a2,neg(c),neg(s),tn),F(2):(a2,c,s,tn)}[q]
            else:
                a2=z3.Real('a!'+key); new=(a2,c,s,tn) if q==2 else (a2,None,None,tn)
            if new[3] is None and self.pole: continue
            self.angle(key,*new); out.append(key)
            self._pairc(('m',nm,key),lambda:self.C(Implies(self.mem(A[0],A[1],a),self.mem(lo,hi,a2))))
            if self.pole: self._pairc(('pole',key),lambda:self.C(And(Or(a2<=-self.PI/2,a2>=self.PI/2),Or(a2<=self.PI/2,a2>=3*self.PI/2))))
        return R
    def libm(self,name,rm,a,k):
        r=super().libm(name,rm,a,k)
        if name not in('cos','tan','sin') or a.c is not None: return r
        key='%s_%s_%s'%(name,rm,self.short(str(a.key())))
        if all(f[0]!=key for f in self.fn):
            f=(key,name,rm,a,r); self.fn.append(f)
            for t,g in list(self.ang.items()): self._pairc(('af',t,key),lambda:self.rel_fn(f,g))
        return r
    def rel_fn(self,f,g):
        """order of f(b), rounded, against the value at the angle a"""
        key,name,rm,b,r=f; a,c,s,t=g; PI=self.PI; C=self.C
        ok=And(self.Fin(b),Not(r.nan))
        ge=lambda v:Implies(And(ok),z3.Or(r.v>=v)) ; le=lambda v:r.v<=v
        if name=='cos' and c is not None:
            B=self.abs(b).v; ok=And(ok,B<=PI)
            for x in (a,-a,2*PI-a):
                d=And(x>=0,x<=PI)
                if rm=='up': C(Implies(And(ok,d,B<=x),r.v>=c))
                if rm=='dn': C(Implies(And(ok,d,B>=x),r.v<=c))
        if name=='sin' and s is not None:
            ok=And(ok,b.v>=-PI/2,b.v<=PI/2); d=And(a>=-PI/2,a<=PI/2)
            if rm=='up': C(Implies(And(ok,d,b.v>=a),r.v>=s))
            if rm=='dn': C(Implies(And(ok,d,b.v<=a),r.v<=s))
        if name=='tan' and t is not None:
            if rm=='up': C(Implies(self.Fin(b),Or(r.nan,r.v>-self.INF)))
            if rm=='dn': C(Implies(self.Fin(b),Or(r.nan,r.v<self.INF)))
            ok=And(ok,b.v>-PI/2,b.v<PI/2); d=And(a>-PI/2,a<PI/2)
            if rm=='up': C(Implies(And(ok,d,b.v>=a),r.v>=t))
            if rm=='dn': C(Implies(And(ok,d,b.v<=a),r.v<=t))
