from spec import *
BOUNDS='every finite or infinite argument; float, double, long double; the keep-upward, mode-switching and exact policies; all four entry rounding modes; 14 functions in both directions; loop-free code'
ASSUMPTIONS=['the base functions (libm) round correctly in the current direction, hence are monotone, odd/even and keep the sign, range and special values of the mathematical function']
FUNCS=('exp','log','sin','cos','tan','asin','acos','atan','sinh','cosh','tanh','asinh','acosh','atanh')
RM={0:'ne',0x400:'dn',0x800:'up',0xc00:'rz'}
def tasks(tier):
    ts=[]
    for T,k in TYPES:
        for P in('topp','tstd','tex'):
            for f in FUNCS:
                def pre(D,i,k=k): return Not(S(D,k).nan(i.x))
                def post(D,i,o,k=k,P=P,f=f):
                    s=S(D,k); D.curk=k
                    if o.kind!='ret': return False
                    if P=='tex':
                        m=o.mode if isinstance(o.mode,int) else None
                        c=[]
                        for v,r in RM.items():
                            y=D.libm(f,r,i.x,k); c.append(Implies(i.entry==v,And(D.same(o.d,y),D.same(o.u,y))))
                        return And(c)
                    c=And(D.same(o.d,D.libm(f,'dn',i.x,k)),D.same(o.u,D.libm(f,'up',i.x,k)))
                    return And(c,o.md==0x800,o.mu==0x800) if P=='topp' else c
                ts.append(Task('%s/%s/%s'%(f,P,T),'%s_%s_%s'%(f,P,T),[('x',k)],[('d',k),('u',k),('md','i32'),('mu','i32')],pre,post,vectors=12))
    return ts
