from spec import *
from opslist import *
from ordd import OrdTrig, Contracts
BOUNDS='every bit pattern of the bounds of the intervals (ordered, infinite, empty or NaN) and every finite or NaN number (fmod: a positive divisor; division_part2: a quotient with two parts; pow: the listed exponents; cos, sin, tan: non-empty intervals, the self-call of cos followed 2 deep); basic and strict checking; float, double, long double; all four entry rounding modes'
ASSUMPTIONS=['the base functions (libm) round correctly in the current direction','cos, sin, tan: the interval subtraction and remainder of the argument reduction satisfy their contracts (decided by C01 and C09)']
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('db','ds'):
            for n in ARITH+TRANS+TRIG:
                def pre(D,i,k=k,n=n,P=P):
                    s=S(D,k)
                    if n in TRIG: return And(s.wf(i.xl,i.xu),D.mem(i.xl,i.xu,D.g) if hasattr(D,'g') else True)
                    num=lambda v:Or(s.nan(v),s.fin(v))
                    c=And(num(i.s),num(i.t))
                    # the empty interval where the policy has one
                    dom=lambda l,u:s.wf(l,u) if P=='ds' or n=='part2' else Or(s.wf(l,u),Not(s.le(l,u)))
                    c=And(c,dom(i.xl,i.xu),dom(i.yl,i.yu))
                    if n=='widen' or P=='ds': c=And(c,s.fin(i.s),s.fin(i.t))
                    y={'fmod':(i.yl,i.yu),'fmods':(i.s,i.s),'sfmod':(i.xl,i.xu)}.get(n)
                    if y: c=And(c,s.pos(y[0]) if P=='ds' else Or(s.pos(y[0]),Not(s.le(*y))))
                    # called for the second part when the first call says there is one
                    if n=='part2': c=And(c,s.neg(i.yl),s.pos(i.yu),Or(s.pos(i.xl),s.neg(i.xu)))
                    # the empty interval where the policy has one
                    dom=lambda l,u:s.wf(l,u) if P=='ds' or n=='part2' else Or(s.wf(l,u),Not(s.le(l,u)))
                    c=And(c,dom(i.xl,i.xu),dom(i.yl,i.yu))
                    if n=='widen' or P=='ds': c=And(c,s.fin(i.s),s.fin(i.t))
                    y={'fmod':(i.yl,i.yu),'fmods':(i.s,i.s),'sfmod':(i.xl,i.xu)}.get(n)
                    if y: c=And(c,s.pos(y[0]) if P=='ds' else Or(s.pos(y[0]),Not(s.le(*y))))
                    # called for the second part when the first call says there is one
                    if n=='part2': c=And(c,s.neg(i.yl),s.pos(i.yu),Or(s.pos(i.xl),s.neg(i.xu)))
                    if n=='fmod': c=And(c,Not(s.isz(i.yl)),Not(s.isz(i.yu)))
                    if n=='fmods': c=And(c,Not(s.isz(i.s)))
                    if n=='sfmod': c=And(c,Not(s.isz(i.xl)),Not(s.isz(i.xu)))
                    return c
                def post(D,i,o,k=k): return ret(o,lambda:o.bad==0)
                kw=dict(mkdomain=lambda t:OrdTrig(False),ext=Contracts(),opts={'cut':True,'noexact':True,'recbound':2}) if n in TRIG else {}
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),xins(k,'xl','xu','yl','yu','s','t'),[('bad','i32')],pre,post,weight=20 if n in('mul','div','fmod') or n in TRIG else 1,**kw))
    return ts
