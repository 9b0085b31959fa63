from spec import *
import mpmath, conc
BOUNDS='the constants of float, double, long double, int and an unspecialised base type, called in all four rounding modes (symbolic), two policies; no other input exists'
ASSUMPTIONS=['pi is taken from mpmath at 400 bits']
with mpmath.workprec(400): PI=F(int(mpmath.floor(mpmath.pi*mpmath.mpf(2)**390)),2**390)
def tasks(tier):
    ts=[]; tr=lambda D,i:True
    for f,m in(('pi',F(1)),('pih',F(1,2)),('pit',F(2))):
        v=PI*m
        for T,k in TYPES:
            for P in('def','sb'):
                for c in('','c'):
                    def post(D,i,o,k=k,v=v):
                        s=S(D,k)
                        if o.kind!='ret': return False
                        kk='double' if k=='x86_fp80' else k
                        lo=conc.rnd(v,'dn',*FPSORT[kk]); hi=conc.rnd(v,'up',*FPSORT[kk])
                        if kk==k: return s.is_(o.lo,o.hi,s.n(lo),s.n(hi))
                        # as tight as double, and enclosing: representable neighbours of pi in long double
                        l2=conc.rnd(v,'dn',*FPSORT[k]); h2=conc.rnd(v,'up',*FPSORT[k])
                        return And(s.le(s.n(lo),o.lo),s.le(o.lo,s.n(l2)),s.le(s.n(h2),o.hi),s.le(o.hi,s.n(hi)))
                    ts.append(Task('%s%s/%s/%s'%(c,f,P,T),'%s%s_%s_%s'%(c,f,P,T),[],[('lo',k),('hi',k)],tr,post,domain='exact',vectors=4))
        lo,hi={'pi':(3,4),'pih':(1,2),'pit':(6,7)}[f]
        def ip(D,i,o,lo=lo,hi=hi): return And(o.lo==lo,o.hi==hi) if o.kind=='ret' else False
        for c in('','c'): ts.append(Task('%s%s/int'%(c,f),'%s%s_def_int'%(c,f),[],[('lo','i32'),('hi','i32')],tr,ip,domain='exact',vectors=4))
        def gp(D,i,o,lo=lo,hi=hi): s=S(D,'double'); return ret(o,lambda:s.is_(o.lo,o.hi,s.n(lo),s.n(hi)))
        ts.append(Task('%s/generic'%f,'%s_gen'%f,[],[('lo','double'),('hi','double')],tr,gp,domain='exact',vectors=4))
    return ts
