from spec import *
BOUNDS='width, norm and the bounds: all bit patterns of well-formed bounds and (where the policy allows one) the empty interval, every width, order domain; median and bisect: all finite bounds in bit-precise arithmetic (float natively, all three types in the reduced formats with (exponent, significand) bits (3,4), (4,6), (5,8); thorough: double natively too), empties in the order domain; over int the bounds and norm above the most negative value; three policies; all four entry rounding modes; loop-free code'
TINY={'float':(3,4),'double':(4,6),'x86_fp80':(5,8)}
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('def','ob','sb'):
            e=P!='def'
            def dom(s,i,e=e): return Or(s.wf(i.xl,i.xu),And(s.nan(i.xl),s.nan(i.xu))) if e else s.wf(i.xl,i.xu)
            E=lambda s,i:s.emp(i.xl,i.xu)
            v=[('v',k)]; v2=[('lo',k),('hi',k)]; v4=v2+[('lo2',k),('hi2',k)]
            forms=[('width',v,lambda s,i,o:s.eq(o.v,s.ite(E(s,i),s.zero,s.sub('up',i.xu,i.xl)))),
                   ('norm',v,lambda s,i,o:Ite(E(s,i),s.nan(o.v),s.eq(o.v,s.mx(s.minus(i.xl),i.xu)))),
                   ('bounds',v4,lambda s,i,o:And(s.same(o.lo,o.hi,i.xl,i.xu),s.same(o.lo2,o.hi2,i.xl,i.xu))),
                   ('checked',v2,lambda s,i,o:Ite(E(s,i),And(s.nan(o.lo),s.nan(o.hi)),s.is_(o.lo,o.hi,i.xl,i.xu)))]
            for n,outs,f in forms:
                def pre(D,i,k=k,dom=dom): return dom(S(D,k),i)
                def post(D,i,o,k=k,f=f):
                    s=S(D,k); return ret(o,lambda:f(s,i,o))
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),xins(k,'xl','xu'),outs,pre,post))
            def fpre(D,i,k=k): return S(D,k).finwf(i.xl,i.xu)
            def med(D,i,o,k=k):
                s=S(D,k); return ret(o,lambda:And(s.le(i.xl,o.v),s.le(o.v,i.xu)))
            def bis(D,i,o,k=k):
                s=S(D,k); return ret(o,lambda:And(s.eq(o.lo,i.xl),s.eq(o.hi,o.lo2),s.eq(o.hi2,i.xu),s.le(o.lo,o.hi),s.le(o.lo2,o.hi2)))
            for n,outs,post in(('median',v,med),('bisect',v4,bis)):
                ts.append(Task('%s/%s/%s/tiny'%(n,P,T),'%s_%s_%s'%(n,P,T),xins(k,'xl','xu'),outs,fpre,post,domain='tiny',fmt=TINY))
                if k=='float' or (tier=='thorough' and k=='double'):
                    ts.append(Task('%s/%s/%s/native'%(n,P,T),'%s_%s_%s'%(n,P,T),xins(k,'xl','xu'),outs,fpre,post,domain='exact',weight=50,solver_ms=100000))
            if e:
                def epre(D,i,k=k): s=S(D,k); return And(s.nan(i.xl),s.nan(i.xu))
                def m2(D,i,o,k=k): s=S(D,k); return ret(o,lambda:s.nan(o.v))
                def b2(D,i,o,k=k): s=S(D,k); return ret(o,lambda:And(s.emp(o.lo,o.hi),s.emp(o.lo2,o.hi2)))
                ts.append(Task('median/%s/%s/empty'%(P,T),'median_%s_%s'%(P,T),xins(k,'xl','xu'),v,epre,m2,gen=lambda rng:['nan','nan']))
                ts.append(Task('bisect/%s/%s/empty'%(P,T),'bisect_%s_%s'%(P,T),xins(k,'xl','xu'),v4,epre,b2,gen=lambda rng:['nan','nan']))
    # integer base type: norm and the bounds, empties are pairs in the wrong order
    for P in('def','ob','sb'):
        k='i32'; e=P!='def'
        for n,outs,f in (('norm',[('v',k)],lambda s,i,o:Implies(s.le(i.xl,i.xu),s.eq(o.v,s.mx(s.minus(i.xl),i.xu)))),
                  ('bounds',[('lo',k),('hi',k),('lo2',k),('hi2',k)],lambda s,i,o:And(s.same(o.lo,o.hi,i.xl,i.xu),s.same(o.lo2,o.hi2,i.xl,i.xu))),
                  ('checked',[('lo',k),('hi',k)],lambda s,i,o:Implies(s.le(i.xl,i.xu),s.is_(o.lo,o.hi,i.xl,i.xu)))):
            def pre(D,i,e=e,n=n): s=S(D,'i32'); return And(s.dom(i.xl,i.xu,e and n=='bounds'),s.lt(-2**31,i.xl))
            def post(D,i,o,f=f): return ret(o,lambda:f(S(D,'i32'),i,o))
            ts.append(Task('%s/%s/int'%(n,P),'%s_%s_int'%(n,P),xins(k,'xl','xu'),outs,pre,post,domain='exact'))
    return ts
