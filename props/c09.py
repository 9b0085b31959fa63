from spec import *
from ordd import OrdFmod
import z3, conc
BOUNDS=('every well-formed X and every well-formed Y with positive lower bound, every width, float, double and long double, '
 'five policies, all four entry rounding modes; loop-free code.  The claim for exactly representable operations: all finite rational X and Y, without rounding')
SH={'ii':('xl','xu','yl','yu'),'is':('xl','xu','y'),'si':('x','yl','yu')}
def g(i,sh):
    xl,xu=(i.x,i.x) if sh=='si' else (i.xl,i.xu); yl,yu=(i.y,i.y) if sh=='is' else (i.yl,i.yu)
    return xl,xu,yl,yu
def gen(rng):
    return None
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','sb','ob','tos','tss'):
            for sh,names in SH.items():
                def pre(D,i,k=k,sh=sh):
                    s=S(D,k); xl,xu,yl,yu=g(i,sh); return And(s.wf(xl,xu),s.wf(yl,yu),s.pos(yl),s.fin(xl) if sh=='si' else True,s.fin(xu) if sh=='si' else True,s.fin(yu) if sh=='is' else True)
                def post(D,i,o,k=k,sh=sh):
                    s=S(D,k); xl,xu,yl,yu=g(i,sh)
                    def f():
                        yb=s.ite(s.neg(xl),yl,yu)
                        n=D.rint('dn',s.div('dn',xl,yb))
                        nn=s.nonneg(n)
                        a=s.ite(nn,s.prod('up',n,yu),s.prod('up',n,yl)); b=s.ite(nn,s.prod('dn',n,yl),s.prod('dn',n,yu))
                        c=[s.eq(o.lo,s.sub('dn',xl,a)),s.eq(o.hi,s.sub('up',xu,b)),s.nonneg(o.lo)]
                        if D.name=='ord':
                            p=D.prod(n); I=D.INF
                            inx=lambda l,u,v:And(Or(l.v<=v,l.v==-I),Or(u.v>=v,u.v==I))
                            c.append(Implies(And(inx(xl,xu,D.gx),inx(yl,yu,D.gy),D.Fin(n)),inx(o.lo,o.hi,D.gx-p)))
                        return Ite(s.eq(n,s.ninf),s.is_(o.lo,o.hi,s.zero,s.pinf),And(*c))
                    return And(ret(o,f),o.mode==o.entry)
                ts.append(Task('%s/%s/%s'%(sh,P,T),'%s_%s_%s'%(sh,P,T),xins(k,*names),[('lo',k),('hi',k)],pre,post,mkdomain=lambda t:OrdFmod()))
    for sh,names in SH.items():
        k='double'
        def pre(D,i,sh=sh):
            s=S(D,'double'); xl,xu,yl,yu=g(i,sh); return And(s.finwf(xl,xu),s.finwf(yl,yu),s.pos(yl))
        def post(D,i,o,sh=sh):
            s=S(D,'double'); xl,xu,yl,yu=g(i,sh)
            if D.name=='concrete': return True
            return ret(o,lambda:And(s.nonneg(o.lo),s.lt(o.lo,yu)))
        ts.append(Task('exact %s'%sh,'%s_ex_double'%sh,xins(k,*names),[('lo',k),('hi',k)],pre,post,mkdomain=lambda t:Real(exact=True),entry=0))
    return ts
