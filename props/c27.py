from spec import *
import z3
from domains import IntMul
NATIVE_FLAGS=['-fsanitize=signed-integer-overflow','-fsanitize-undefined-trap-on-error']
BOUNDS='int and long long bounds, every value above the most negative one for which the exact results are representable; powers 0 to 5 (int; bounds up to 1290 for the third, 63 (quick) or 215 for the fourth and 73 for the fifth power), the default policies of integer intervals; products in + - * square are handled by instantiated facts of multiplication (signs, units, monotonicity), powers above 2 bit-precisely'
class Z:
    """integers of width w: Python integers or 2w-bit vectors"""
    def __init__(s,D,w): s.D=D; s.w=w
    def x(s,v): return v if isinstance(v,int) else z3.SignExt(s.w,v)
    def n(s,v,*ref): return v
    def le(s,a,b): return a<=b
    def mn(s,a,b): return (a if a<=b else b) if isinstance(a,int) and isinstance(b,int) else z3.If(a<=b,a,b)
    def mx(s,a,b): return (b if a<=b else a) if isinstance(a,int) and isinstance(b,int) else z3.If(a<=b,b,a)
    def ite(s,c,a,b): 
        if isinstance(c,bool): return a if c else b
        if isinstance(a,int): a=z3.BitVecVal(a,2*s.w)
        return z3.If(c,a,b)
    def mul(s,a,b):
        """exact product of two w-bit inputs"""
        if isinstance(a,int): return a*b
        return s.D.prod(a,b,s.w) if hasattr(s.D,'prod') else z3.SignExt(s.w,a)*z3.SignExt(s.w,b)
    def fits(s,a): return And(a>-(1<<(s.w-1)),a<(1<<(s.w-1)))
    def ok(s,*v): return And([x>-(1<<(s.w-1)) for x in v])
def AND(*c): return And(*[bool(x) if isinstance(x,int) else x for x in c])
def range_of(z,op,i):
    x=z.x; xl,xu=x(i.xl),x(i.xu)
    if hasattr(i,'yl'): yl,yu=x(i.yl),x(i.yu); b=(i.yl,i.yu)
    elif hasattr(i,'s'): yl=yu=x(i.s); b=(i.s,i.s)
    if op in('add','adds','sadd','addas','addass'): return xl+yl,xu+yu
    if op in('sub','subs','subas','subass'): return xl-yu,xu-yl
    if op=='ssub': return yl-xu,yl-xl
    if op in('mul','muls','smul','mulas','mulass'):
        p=[z.mul(a,c) for a in(i.xl,i.xu) for c in dict.fromkeys(b)] if isinstance(i.xl,int) else [z.mul(a,c) for a in(i.xl,i.xu) for c in(b if hasattr(i,'yl') else b[:1])]
        lo=hi=p[0]
        for q in p[1:]: lo=z.mn(lo,q); hi=z.mx(hi,q)
        return lo,hi
    if op=='neg': return -xu,-xl
    has0=AND(xl<=0,xu>=0)
    if op=='abs':
        a=z.ite(xl<0,-xl,xl); c=z.ite(xu<0,-xu,xu); return z.ite(has0,0,z.mn(a,c)),z.mx(a,c)
    if op in('square','pow2'):
        a,c=z.mul(i.xl,i.xl),z.mul(i.xu,i.xu); return z.ite(has0,0,z.mn(a,c)),z.mx(a,c)
    if op in('min','mins','smin'): return z.mn(xl,yl),z.mn(xu,yu)
    if op in('max','maxs','smax'): return z.mx(xl,yl),z.mx(xu,yu)
    if op in('hull','hulls'): return z.mn(xl,yl),z.mx(xu,yu)
    if op=='intersect': return z.mx(xl,yl),z.mn(xu,yu)
    if op=='widen': return xl-yl,xu+yl
    if op=='pow0': return 1,1
    if op=='pow1': return xl,xu
    k=int(op[3:]); W=2*z.w
    def pw(v):
        r=v
        for _ in range(k-1): r=r*v
        return r
    a,c=pw(xl),pw(xu)
    if k&1: return a,c
    return z.ite(has0,0,z.mn(a,c)),z.mx(a,c)
def tasks(tier):
    ts=[]
    for T,t,w in(('int','i32',32),('llong','i64',64)):
        def post_ub(o): return [Not(c) for d,c in o.ub]
        MD=lambda task: IntMul()
        def small(i,k,w):
            """inputs whose k-th power is representable"""
            m=int(round((2**(w-1))**(1/k)))+1
            while m**k>=1<<(w-1): m-=1
            if tier=='quick' and k==4: m=min(m,63)
            return And(i.xl>=-m,i.xl<=m,i.xu>=-m,i.xu<=m)
        ARGS={'add':2,'sub':2,'mul':2,'adds':1,'sadd':1,'subs':1,'ssub':1,'muls':1,'smul':1,'addas':2,'subas':2,'mulas':2,'addass':1,'subass':1,'mulass':1,'neg':0,'abs':0,'square':0,
              'min':2,'max':2,'mins':1,'smin':1,'maxs':1,'smax':1,'hull':2,'hulls':1,'intersect':2,'widen':1,'pow0':0,'pow1':0,'pow2':0,'pow3':0,'pow4':0,'pow5':0}
        for op,n in ARGS.items():
            k=int(op[3:]) if op[:3]=='pow' else 0
            if k>2 and T=='llong' and (tier=='quick' or k<4): continue
            ins=[('xl',t),('xu',t)]+([('yl',t),('yu',t)] if n==2 else [('s',t)] if n==1 else [])
            def pre(D,i,w=w,op=op,n=n,k=k):
                z=Z(D,w); c=[i.xl<=i.xu,z.ok(i.xl)]
                if n==2: c+=[i.yl<=i.yu,z.ok(i.yl)]
                if n==1: c.append(z.ok(i.s))
                if op=='widen': c.append(i.s>=0)
                if op=='intersect': c+=[z.mx(i.xl,i.yl)<=z.mn(i.xu,i.yu)]
                if op=='pow0': c.append(Or(i.xl!=0,i.xu!=0))
                if k>2: return AND(*c,small(i,k,w))
                lo,hi=range_of(z,op,i)
                return AND(*c,z.fits(lo),z.fits(hi))
            def post(D,i,o,w=w,op=op):
                z=Z(D,w)
                def g():
                    lo,hi=range_of(z,op,i)
                    return AND(z.x(o.lo)==lo,z.x(o.hi)==hi,*post_ub(o))
                return ret(o,g)
            bit=k>2
            ts.append(Task('%s/%s'%(op,T),'%s_%s'%(op,T),ins,[('lo',t),('hi',t)],pre,post,domain='exact',mkdomain=None if bit else MD,entry=0,solver_ms=60000 if tier=='quick' else 300000,vectors=30,weight=10,budget=(150 if tier=='quick' else 800) if bit else None,
                gen=gen_int(ins,w,small_k=k) ))
        for op in('width','norm'):
            def pre(D,i,w=w,op=op): z=Z(D,w); return AND(i.xl<=i.xu,z.ok(i.xl),z.fits(z.x(i.xu)-z.x(i.xl)) if op=='width' else True)
            def post(D,i,o,w=w,op=op):
                z=Z(D,w); xl,xu=z.x(i.xl),z.x(i.xu)
                v=xu-xl if op=='width' else z.mx(-xl,xu)
                return ret(o,lambda:AND(z.x(o.v)==v,*post_ub(o)))
            ts.append(Task('%s/%s'%(op,T),'%s_%s'%(op,T),[('xl',t),('xu',t)],[('v',t)],pre,post,domain='exact',mkdomain=MD,entry=0,gen=gen_int([('xl',t),('xu',t)],w)))
        names=['zin','in','sub','psub','over','sing','equ','emp']
        def ppre(D,i): return AND(i.xl<=i.xu,i.yl<=i.yu)
        def ppost(D,i,o):
            a,b,c,d=i.xl,i.xu,i.yl,i.yu
            def g():
                sub=AND(c<=a,b<=d); eq=AND(a==c,b==d)
                R={'zin':AND(a<=0,b>=0),'in':AND(a<=i.s,i.s<=b),'sub':sub,'psub':AND(sub,Not(eq)),'over':AND(a<=d,c<=b),'sing':AND(a==b),'equ':eq,'emp':False}
                return AND(*[isbool(o[n],R[n]) for n in names],*post_ub(o))
            return ret(o,g)
        I5=[('xl',t),('xu',t),('yl',t),('yu',t),('s',t)]
        ts.append(Task('predicates/%s'%T,'preds_%s'%T,I5,[(n,'i8') for n in names],ppre,ppost,domain='exact',mkdomain=MD,entry=0,gen=gen_int(I5,w)))
        def cpost(D,i,o):
            a,b=i.xl,i.xu; c,d=(i.yl,i.yu) if hasattr(i,'yl') else (i.s,i.s)
            def rel(n,a,b,c,d): return {'lt':AND(b<c),'le':AND(b<=c),'gt':AND(a>d),'ge':AND(a>=d),'eq':AND(a==b,c==d,a==c),'ne':Or(AND(b<c),AND(a>d))}[n]
            def g():
                L=[]
                for n in RELS:
                    al=rel(n,a,b,c,d); no=rel(NEGREL[n],a,b,c,d)
                    L.append(Ite(al,o[n]==1,Ite(no,o[n]==0,o[n]==2)))
                return AND(*L,*post_ub(o))
            return ret(o,g)
        for nm,ins in(('cmp',[('xl',t),('xu',t),('yl',t),('yu',t)]),('cmps',[('xl',t),('xu',t),('s',t)])):
            def cpre(D,i): return AND(i.xl<=i.xu,i.yl<=i.yu if hasattr(i,'yl') else True)
            ts.append(Task('comparisons %s/%s'%(nm,T),'%s_%s'%(nm,T),ins,[(n,'i8') for n in RELS],cpre,cpost,domain='exact',mkdomain=MD,entry=0,max_paths=8000,gen=gen_int(ins,w)))
    return ts
def gen_int(ins,w,small_k=0):
    def g(rng):
        b=rng.choice([3,5,8,w//2-1,w-2]); 
        if small_k>2: b=rng.choice([3,(w-1)//small_k])
        v=[]
        for j,(n,t) in enumerate(ins):
            x=rng.getrandbits(b)*rng.choice([1,-1])
            if rng.random()<.2: x=rng.choice([0,1,-1])
            if n[-1]=='u' and x<v[-1]: v[-1],x=x,v[-1]
            v.append(x)
        return [x&((1<<w)-1) for x in v]
    return g
