from spec import *
BOUNDS='float, double, long double under eight policies and int, unsigned, long long under the default one, every rounding mode on entry; no other input exists'
def ieee(k):
    eb,sb=FPSORT[k]; emax=(1<<(eb-1))-1; emin=1-emax; p=sb
    return {'min':F(2)**emin,'max':(2-F(2)**(1-p))*F(2)**emax,'epsilon':F(2)**(1-p),'denorm_min':F(2)**(emin-p+1)}
STRICTP=('def','tos','ne','cne'); 
def tasks(tier):
    ts=[]; tr=lambda D,i:True
    for T,k in TYPES:
        vals=ieee(k)
        for P in('def','ob','tsb','tos','cn','ne','nn','cne'):
            for n in('min','max','epsilon','denorm_min','infinity','quiet_NaN','signaling_NaN'):
                def post(D,i,o,k=k,P=P,n=n,vals=vals):
                    s=S(D,k)
                    if n=='infinity': return ret(o,lambda:s.is_(o.lo,o.hi,s.ninf,s.pinf))
                    if n=='quiet_NaN': return throws(o,EMPTY_EXC) if P in STRICTP else ret(o,lambda:s.emp(o.lo,o.hi))
                    if n=='signaling_NaN':
                        if P in('cn','cne'): return throws(o,NAN_EXC)
                        return throws(o,EMPTY_EXC) if P in STRICTP else ret(o,lambda:And(s.nan(o.lo),s.nan(o.hi)))
                    return ret(o,lambda:s.is_(o.lo,o.hi,s.n(vals[n]),s.n(vals[n])))
                ts.append(Task('%s/%s/%s'%(n,P,T),'%s_%s_%s'%(n,P,T),[],[('lo',k),('hi',k)],tr,post,domain='exact',vectors=4))
            ts.append(stat(P,T))
    for T,t,w,sg in(('int','i32',32,1),('llong','i64',64,1),('uint','i32',32,0)):
        M=(1<<w)-1
        vals={'min':-(1<<(w-1)) if sg else 0,'max':(1<<(w-1))-1 if sg else M,'epsilon':0,'denorm_min':0}
        for n,v in vals.items():
            def ip(D,i,o,v=v,M=M): return ret(o,lambda:And(o.lo==v,o.hi==v) if v<=M//2 else And(o.lo==v-M-1,o.hi==v-M-1))
            ts.append(Task('%s/def/%s'%(n,T),'%s_def_%s'%(n,T),[],[('lo',t),('hi',t)],tr,ip,domain='exact',vectors=4))
        ts.append(stat('def',T))
    return ts
def stat(P,T):
    outs=[('f%d'%j,'i32') for j in range(23)]
    def post(D,i,o): return ret(o,lambda:And(o.f0==0,o.f1==o.f2,*[o['f%d'%j]==1 for j in range(3,23)]))
    return Task('members/%s/%s'%(P,T),'stat_%s_%s'%(P,T),[],outs,lambda D,i:True,post,domain='exact',vectors=4)
