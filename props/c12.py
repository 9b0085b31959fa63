from spec import *
from c23 import INTS,CT,conv
INTS=dict(INTS,lng=('i64',64,True),ulng=('u64',64,False))
BOUNDS='all non-NaN arguments (infinities included where the operation is defined on them); every value of the integer source types; median: all finite ordered pairs, bit-precise (float natively, all types in the reduced formats with (exponent, significand) bits (3,4), (4,6), (5,8); thorough: double natively too); float, double, long double; both hardware policies; all four entry rounding modes; loop-free code'
TINY={'float':(3,4),'double':(4,6),'x86_fp80':(5,8)}
RM={0:'ne',0x400:'dn',0x800:'up',0xc00:'rz'}
def conv2(D,rm,v,src,to):
    if src in INTS: return D.from_int(rm,v,INTS[src][1],INTS[src][2],to)
    return conv(D,rm,v,src,to)
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        outs=[('d',k),('u',k),('md','i32'),('mu','i32')]
        for P in('opp','std'):
            up=lambda o,P=P: And(o.md==0x800,o.mu==0x800) if P=='opp' else True
            for op in('add','sub','mul','div'):
                def pre(D,i,k=k,op=op):
                    s=S(D,k); return And(Not(s.nan(i.x)),Not(s.nan(i.y)))
                def post(D,i,o,k=k,op=op,up=up):
                    s=S(D,k); return ret(o,lambda:And(D.same(o.d,s.op(op,'dn',i.x,i.y)),D.same(o.u,s.op(op,'up',i.x,i.y)),up(o)))
                ts.append(Task('%s/%s/%s'%(op,P,T),'%s_%s_%s'%(op,P,T),xins(k,'x','y'),outs,pre,post))
            def pre1(D,i,k=k): return Not(S(D,k).nan(i.x))
            def pre0(D,i,k=k): s=S(D,k); return s.nonneg(i.x)
            def psqrt(D,i,o,k=k,up=up): s=S(D,k); return ret(o,lambda:And(s.eq(o.d,s.sqrt('dn',i.x)),s.eq(o.u,s.sqrt('up',i.x)),up(o)))
            def pint(D,i,o,k=k,up=up): return ret(o,lambda:And(D.eq(o.d,D.rint('dn',i.x)),D.eq(o.u,D.rint('up',i.x)),up(o)))
            ts.append(Task('sqrt/%s/%s'%(P,T),'sqrt_%s_%s'%(P,T),xins(k,'x'),outs,pre0,psqrt))
            ts.append(Task('to_int/%s/%s'%(P,T),'toint_%s_%s'%(P,T),xins(k,'x'),outs,pre1,pint,domain='exact'))
            for src in list(INTS)+list(CT):
                isint=src in INTS; st=INTS[src][0] if isint else CT[src]
                def cpre(D,i,st=st,isint=isint): return True if isint else Not(S(D,st).nan(i.v))
                def cpost(D,i,o,k=k,src=src,up=up): s=S(D,k); return ret(o,lambda:And(s.eq(o.d,conv2(D,'dn',i.v,src,k)),s.eq(o.u,conv2(D,'up',i.v,src,k)),up(o)))
                ts.append(Task('conv/%s->%s/%s'%(src,T,P),'cv_%s_%s_%s'%(src,P,T),[('v',st)],outs,cpre,cpost,domain='exact' if isint else 'ord',vectors=12))
            def mpre(D,i,k=k): return S(D,k).finwf(i.x,i.y)
            def mpost(D,i,o,k=k,P=P):
                s=S(D,k)
                def g():
                    sm=s.add('ne',i.x,i.y); m=s.div('ne',sm,s.n(2))
                    eb,sb=D.fmt[k] if hasattr(D,'fmt') else FPSORT[k]
                    mn=s.n(F(2)**(2-2**(eb-1)))
                    return And(s.le(i.x,o.v),s.le(o.v,i.y),Implies(And(s.fin(sm),s.le(mn,D.abs(m))),s.eq(o.v,m)),o.mv==0x800 if P=='opp' else True)
                return ret(o,g)
            ts.append(Task('median/%s/%s/tiny'%(P,T),'median_%s_%s'%(P,T),xins(k,'x','y'),[('v',k),('mv','i32')],mpre,mpost,domain='tiny',fmt=TINY))
            if k=='float' or(tier=='thorough' and k=='double'):
                ts.append(Task('median/%s/%s/native'%(P,T),'median_%s_%s'%(P,T),xins(k,'x','y'),[('v',k),('mv','i32')],mpre,mpost,domain='exact',weight=50,solver_ms=100000))
        def tpost(D,i,o,k=k):
            def g():
                c=[o.a==0x400,o.b==0x800,o.c==0,o.z==0xc00,o.e==i.entry,D.eq(o.f,i.x)]
                for v,r in RM.items(): c.append(Implies(i.entry==v,D.eq(o.t,D.rint(r,i.x))))
                return And(c)
            return ret(o,g)
        ts.append(Task('control/%s'%T,'ctl_%s'%T,xins(k,'x'),[('a','i32'),('b','i32'),('c','i32'),('z','i32'),('e','i32'),('t',k),('f',k)],pre1,tpost,domain='exact'))
    return ts
