"""Vocabulary for the specifications.  Every function works on symbolic and on concrete domains."""
import sys, os
sys.set_int_max_str_digits(0)
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'engine'))
from logic import *
import logic
from runner import Task, NS, FPS, TY, MODES
from domains import Exact, Real, Unsupported, FPSORT
from ordd import Ord
from fractions import Fraction as F
ITYPES=[('float','float'),('double','double'),('ldouble','x86_fp80'),('int','i32')]   # with an integer base type
TYPES=[('float','float'),('double','double'),('ldouble','x86_fp80')]
def kof(D,x): return None
class S:
    """constants and predicates of one base type k in domain D"""
    def __new__(cls,D,k): return object.__new__(SI if k[0]=='i' else S)
    def __init__(s,D,k): s.D=D; s.k=k; D.curk=k
    def ordered(s,l,u): return s.D.le(l,u)
    def dom(s,l,u,e):
        """every ordered pair, infinite points included, and when e the empty interval as the policies represent it"""
        return Or(s.ordered(l,u),And(s.nan(l),s.nan(u))) if e else s.ordered(l,u)
    def num(s,x,nan=True): return True if nan else Not(s.nan(x))
    def n(s,v): return s.D.num(s.k,v)
    @property
    def zero(s): return s.n(0)
    @property
    def pinf(s): return s.n('inf')
    @property
    def ninf(s): return s.n('-inf')
    def fin(s,x): return And(Not(s.D.isnan(x)),Not(s.D.isinf(x)))
    def nan(s,x): return s.D.isnan(x)
    def wf(s,l,u): return And(s.D.le(l,u),Not(s.D.eq(l,s.pinf)),Not(s.D.eq(u,s.ninf)))
    def finwf(s,l,u): return And(s.D.le(l,u),s.fin(l),s.fin(u))
    def emp(s,l,u): return Not(s.D.le(l,u))       # an empty interval as the basic checking policy represents it
    def isz(s,x): return s.D.eq(x,s.zero)
    def neg(s,x): return s.D.lt(x,s.zero)
    def pos(s,x): return s.D.lt(s.zero,x)
    def nonneg(s,x): return s.D.le(s.zero,x)
    def nonpos(s,x): return s.D.le(x,s.zero)
    def minus(s,x): return s.D.neg(x)
    def op(s,o,rm,a,b): s.D.curk=s.k; return s.D.binop(o,rm,a,b)
    def add(s,rm,a,b): return s.op('add',rm,a,b)
    def sub(s,rm,a,b): return s.op('sub',rm,a,b)
    def mul(s,rm,a,b): return s.op('mul',rm,a,b)
    def div(s,rm,a,b): return s.op('div',rm,a,b)
    def sqrt(s,rm,a): s.D.curk=s.k; return s.D.sqrt(rm,a)
    def mn(s,a,b): return s.D.ite(s.D.lt(b,a),b,a)
    def mx(s,a,b): return s.D.ite(s.D.lt(a,b),b,a)
    def ite(s,c,a,b): return s.D.ite(c,a,b)
    def eq(s,a,b): return s.D.eq(a,b)
    def le(s,a,b): return s.D.le(a,b)
    def lt(s,a,b): return s.D.lt(a,b)
    def is_(s,ol,ou,l,u): return And(s.D.eq(ol,l),s.D.eq(ou,u))
    def same(s,ol,ou,l,u): return And(s.D.same(ol,l),s.D.same(ou,u))
    # product where a zero factor gives exactly zero
    def prod(s,rm,a,b): return s.ite(Or(s.isz(a),s.isz(b)),s.zero,s.mul(rm,a,b))
    def imul(s,xl,xu,yl,yu):
        ps=[(a,b) for a in(xl,xu) for b in(yl,yu)]
        L=U=None
        for a,b in ps:
            p=s.prod('dn',a,b); q=s.prod('up',a,b)
            L=p if L is None else s.mn(L,p); U=q if U is None else s.mx(U,q)
        return L,U
    def idiv_nz(s,xl,xu,yl,yu):
        """quotient bounds when Y does not contain zero"""
        ypos=s.pos(yl)
        # Y<0: divide -X by -Y
        a=s.ite(ypos,xl,s.minus(xu)); b=s.ite(ypos,xu,s.minus(xl)); c=s.ite(ypos,yl,s.minus(yu)); d=s.ite(ypos,yu,s.minus(yl))
        lo=s.ite(s.nonneg(a),s.div('dn',a,d),s.div('dn',a,c))
        hi=s.ite(s.nonneg(b),s.div('up',b,c),s.div('up',b,d))
        return lo,hi
class IntRel:
    """order of machine integers (signed bit-vectors or Python integers) under the names the domains use"""
    name='int'
    def le(s,a,b): return a<=b
    def lt(s,a,b): return a<b
    def eq(s,a,b): return a==b
    same=eq
    def isnan(s,a): return False
    isinf=isnan
    def neg(s,a): return -a
    def num(s,k,v): return v
    def ite(s,c,a,b):
        if isinstance(c,(bool,int)): return a if c else b
        import z3
        n=next((x.size() for x in (a,b) if not isinstance(x,int)),32)
        B=lambda x:z3.BitVecVal(x,n) if isinstance(x,int) else x
        return z3.If(c,B(a),B(b))
class SI(S):
    """the same vocabulary over an integer base type: no NaN, no infinity, empties are pairs in the wrong order"""
    def __init__(s,D,k): s.D=IntRel(); s.k=k
    def wf(s,l,u): return l<=u
    def finwf(s,l,u): return l<=u
    def dom(s,l,u,e): return True if e else l<=u
    def num(s,x,nan=True): return True
    def emp(s,l,u): return Not(s.D.le(l,u))
NOMODE=lambda o: True
def ret(o,f):
    """the operation returns normally and f() holds of the result"""
    return f() if o.kind=='ret' else False
def xins(k,*names): return [(n,k) for n in names]
XY=('xl','xu','yl','yu')
EMPTY_EXC='St13runtime_error'; NAN_EXC='St16invalid_argument'
COMPARE_EXC='N5boost7numeric12interval_lib16comparison_errorE'
def throws(o,exc): return o.kind=='throw' and o.tname==exc
def empties(s,o,P,lo='lo',hi='hi'):
    """the empty interval of the checking policy of type P: an exception, or NaN-like bounds"""
    if P in STRICT: return throws(o,EMPTY_EXC)
    return ret(o,lambda:s.emp(o[lo],o[hi]))
STRICT=('def','tos','tss','ne')
def divspec(s,lo,hi,xl,xu,yl,yu):
    """result bounds of X/Y for Y other than exactly zero"""
    D=s.D
    xz=And(s.isz(xl),s.isz(xu))
    nz=Or(s.pos(yl),s.neg(yu)); strict=And(s.neg(yl),s.pos(yu))
    ql,qu=s.idiv_nz(xl,xu,yl,yu)
    whole=s.is_(lo,hi,s.ninf,s.pinf)
    # one bound of Y is zero; mirror to Y>=0
    p=s.pos(yu)
    a=s.ite(p,xl,s.minus(xu)); b=s.ite(p,xu,s.minus(xl)); d=s.ite(p,yu,s.minus(yl))
    tight=Ite(xz,s.is_(lo,hi,s.zero,s.zero),
          Ite(s.nonneg(a),s.is_(lo,hi,s.div('dn',a,d),s.pinf),
          Ite(s.nonpos(b),s.is_(lo,hi,s.ninf,s.div('up',b,d)),whole)))
    touch=Or(tight,And(whole,s.neg(xl),s.nonneg(xu)))     # the whole line is accepted when X reaches zero from below
    return Ite(nz,s.is_(lo,hi,ql,qu),Ite(strict,Ite(xz,s.is_(lo,hi,s.zero,s.zero),whole),touch))
# relations between all / some pairs of elements of two non-empty closed intervals
def allrel(s,n,a,b,c,d):
    return {'lt':lambda:s.lt(b,c),'le':lambda:s.le(b,c),'gt':lambda:s.lt(d,a),'ge':lambda:s.le(d,a),
            'eq':lambda:And(s.eq(a,b),s.eq(c,d),s.eq(a,c)),'ne':lambda:Or(s.lt(b,c),s.lt(d,a))}[n]()
NEGREL={'lt':'ge','le':'gt','gt':'le','ge':'lt','eq':'ne','ne':'eq'}
def somerel(s,n,a,b,c,d): return Not(allrel(s,NEGREL[n],a,b,c,d))
RELS=('lt','le','gt','ge','eq','ne')
def isbool(o,b): return And(Iff(o!=0,b),Or(o==0,o==1))
