from spec import *
import z3, conc
from ordd import OrdRoot, Contracts
BOUNDS=('every finite or infinite bound of every width, base types float, double and long double, three policies, root degrees 1 to 5 and 7 (thorough: also 16 and 31) '
 '(2 and 3 for every policy; with double, and in the thorough tier all types, for the standard one); the iteration of the root algorithm is followed for at most 1 (quick) or 2 (thorough) '
 'complete steps before the step in which it stops, for intervals with one bound fixed at -1, 0 or 1, and for at most none before '
 'it for two symbolic bounds; paths that iterate longer are cut, so termination after more steps is not decided by the solver')
ASSUMPTIONS=['the interval operations the root algorithm is built from (+ - * / integer pow, median) satisfy their enclosure contracts; '
 'C02, C03, C06 and C13 decide them on the code of the same run']
def mk(n): return lambda t: OrdRoot(n,['x','xl','xu'])
def end_lo(D,lo,x):
    """lo is a lower bound of the real k-th root of x"""
    I=D.INF; r=D.ghost(D.abs(x))[1]
    fin=lambda v:And(Or(lo.v<=v,lo.v==-I),Not(lo.v==I))
    return And(Not(lo.nan),Ite(D._inf(x),Ite(x.v<0,lo.v==-I,lo.v<=I),Ite(x.v<0,fin(-r),fin(r))))
def end_hi(D,hi,x): return end_lo(D,D.neg(hi),D.neg(x))
def ccmp(n,b,x):
    """sign of b - root_n(x)"""
    if not conc.isnum(b) or not conc.isnum(x):
        big=lambda t:0 if conc.isnum(t) else 1 if t=='inf' else -1
        return big(b)-big(x)
    b,x=conc.val(b),conc.val(x)
    p=b**n if n&1 or b>=0 else -b**n
    return (p>x)-(p<x)
def encl(D,n,lo,hi,x,y):
    if D.name=='concrete':
        if 'nan' in(lo,hi): return False
        return ccmp(n,lo,x)<=0 and ccmp(n,hi,y)>=0
    return And(end_lo(D,lo,x),end_hi(D,hi,y),D.le(lo,hi))
def gen(rng):
    m=F(rng.getrandbits(20)|1<<19,1<<19)*F(2)**rng.choice((-9,-3,-1,0,0,1,2,5,8))
    return m
def tasks(tier):
    ts=[]; deep=tier!='quick'
    for T,k in TYPES:
        for P in('def','sb','ob'):
            for n in(1,2,3,4,5,7,16,31):
                if not deep and n>7: continue
                if not deep and (n>3 and (T!='double' or P!='def') or P=='sb' and T!='double' and n>1): continue
                def add(e,names,rng,lo,hi,spec,lb,k=k,n=n,P=P,T=T,**kw):
                    def pre(D,i,k=k): s=S(D,k); return rng(s,i)
                    def post(D,i,o,k=k,n=n):
                        s=S(D,k)
                        return ret(o,lambda:And(encl(D,n,o.lo,o.hi,lo(s,i),hi(s,i)),spec(s,i,o),o.mode==o.entry))
                    def g(r,e=e,names=names):
                        if e=='root':
                            v=[gen(r)*r.choice((1,1,-1,0)) for _ in names]; return sorted(v) if r.random()<.9 else [r.choice(v) for _ in v]
                        return [-gen(r) if e[0]=='n' else gen(r)]
                    o=dict(mkdomain=mk(n),budget=110 if not deep else 400,loopbound=lb,ext=Contracts(),opts={'cut':True,'noexact':True},gen=g,vectors=6)
                    o.update(kw)
                    ts.append(Task('%s/k=%d/%s/%s'%(e,n,P,T),'%s%d_%s_%s'%(e,n,P,T),xins(k,*names),[('lo',k),('hi',k)],pre,post,**o))
                L=LB[deep]
                one=lambda s,i:s.n(1); mone=lambda s,i:s.n(-1); X=lambda s,i:i.x; z=lambda s,i:s.zero
                wf=lambda s,i:s.wf(i.xl,i.xu)
                if n==1:
                    def post(D,i,o,k=k): s=S(D,k); return ret(o,lambda:And(s.is_(o.lo,o.hi,i.xl,i.xu),o.mode==o.entry))
                    ts.append(Task('root/k=1/%s/%s'%(P,T),'root1_%s_%s'%(P,T),xins(k,'xl','xu'),[('lo',k),('hi',k)],lambda D,i,k=k:S(D,k).wf(i.xl,i.xu),post)); continue
                if n%2==0:
                    def post(D,i,o,k=k,P=P): s=S(D,k); return And(empties(s,o,P),o.mode==o.entry)
                    ts.append(Task('negative/k=%d/%s/%s'%(n,P,T),'root%d_%s_%s'%(n,P,T),xins(k,'xl','xu'),[('lo',k),('hi',k)],lambda D,i,k=k:And(S(D,k).wf(i.xl,i.xu),S(D,k).neg(i.xu)),post))
                add('a',['x'],lambda s,i:And(s.le(s.n(1),i.x)),one,X,lambda s,i,o:s.eq(o.lo,s.n(1)),L)
                add('b',['x'],lambda s,i:And(s.pos(i.x),s.le(i.x,s.n(1))),X,one,lambda s,i,o:And(s.nonneg(o.lo),s.eq(o.hi,s.n(1))),L)
                add('z',['x'],lambda s,i:s.nonneg(i.x),z,X,lambda s,i,o:s.eq(o.lo,s.zero),L)
                # two symbolic bounds; for an even degree only the non-negative part has roots
                if n%2==0: add('root',['xl','xu'],lambda s,i:And(s.wf(i.xl,i.xu),s.nonneg(i.xu)),lambda s,i:s.mx(i.xl,s.zero),lambda s,i:i.xu,lambda s,i,o:s.nonneg(o.lo),1)
                else: add('root',['xl','xu'],wf,lambda s,i:i.xl,lambda s,i:i.xu,lambda s,i,o:True,1)
                if n&1:
                    add('na',['x'],lambda s,i:s.le(i.x,s.n(-1)),X,mone,lambda s,i,o:s.eq(o.hi,s.n(-1)),L)
                    add('nb',['x'],lambda s,i:And(s.neg(i.x),s.le(s.n(-1),i.x)),mone,X,lambda s,i,o:And(s.nonpos(o.hi),s.eq(o.lo,s.n(-1))),L)
                    add('nz',['x'],lambda s,i:s.nonpos(i.x),X,z,lambda s,i,o:s.eq(o.hi,s.zero),L)
    return ts
LB=(2,3)
