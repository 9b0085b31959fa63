from spec import *
BOUNDS='all values of the source types short, int, unsigned, long long, unsigned long long (bit-vectors), all finite and NaN float, double, long double sources, ordered pairs with infinite ends, well-formed and empty source intervals; source intervals over int with every pair of bounds; base types float, double, long double, and int (from short and int); three policies, same and other policy sources; all four entry rounding modes; loop-free code'
INTS={'sint':('i16',16,True),'int':('i32',32,True),'uint':('u32',32,False),'llong':('i64',64,True),'ullong':('u64',64,False)}
CT={'float':'float','double':'double','ldouble':'x86_fp80'}
EMP={'def':False,'ob':True,'sb':True}
OTHER={'def':'ob','ob':'sb','sb':'def'}
def conv(D,rm,v,src,to):
    if src in INTS: return D.from_int(rm,v,INTS[src][1],INTS[src][2],to)
    return D.cvt(rm,v,CT[src],to) if CT[src]!=to else v
def ile(a,b,src): # integer order
    if isinstance(a,int): return a<=b
    import z3
    return a<=b if INTS[src][2] else z3.ULE(a,b)
def tasks(tier):
    ts=[]
    def add(name,fn,ins,pre,post,k,dom='ord',**kw): ts.append(Task(name,fn,ins,[('lo',k),('hi',k)],pre,post,domain=dom,vectors=kw.pop('vectors',10),**kw))
    for T,k in TYPES:
        for P in('def','ob','sb'):
            e=EMP[P]
            for src in list(INTS)+list(CT):
                isint=src in INTS; st=INTS[src][0] if isint else CT[src]; dom='exact' if isint else 'ord'
                def pre(D,i,st=st,isint=isint,e=e): 
                    if isint: return True
                    s=S(D,st); return Or(s.fin(i.v),s.nan(i.v)) if e else s.fin(i.v)
                def post(D,i,o,k=k,src=src,isint=isint,P=P):
                    s=S(D,k); ok=lambda: ret(o,lambda:s.is_(o.lo,o.hi,conv(D,'dn',i.v,src,k),conv(D,'up',i.v,src,k)))
                    if isint: return ok()
                    return Ite(D.isnan(i.v),empties(s,o,P),ok())
                for f in('ctor','asg'): add('%s/%s->%s/%s'%(f,src,T,P),'%s_%s_%s_%s'%(f,src,P,T),[('v',st)],pre,post,k,dom)
                def ppre(D,i,st=st,isint=isint,e=e):
                    if isint: return True
                    s=S(D,st); a=Or(s.nan(i.l),Not(s.eq(i.l,s.pinf))); b=Or(s.nan(i.u),Not(s.eq(i.u,s.ninf)))
                    return And(a,b)
                def ppost(D,i,o,k=k,src=src,st=st,isint=isint,P=P):
                    s=S(D,k)
                    ordd=ile(i.l,i.u,src) if isint else S(D,st).le(i.l,i.u)
                    s=S(D,k)
                    return Ite(ordd,ret(o,lambda:s.is_(o.lo,o.hi,conv(D,'dn',i.l,src,k),conv(D,'up',i.u,src,k))),empties(s,o,P))
                add('pair/%s->%s/%s'%(src,T,P),'pair_%s_%s_%s'%(src,P,T),[('l',st),('u',st)],ppre,ppost,k,dom)
                if src==T: add('assign/%s/%s'%(T,P),'assign_%s_%s'%(P,T),[('l',st),('u',st)],ppre,ppost,k,dom)
                if not isint:
                    for R,Q in(('s',P),('o',OTHER[P])):
                        def ipre(D,i,st=st,e=EMP[Q]):
                            s=S(D,st); c=s.wf(i.l,i.u); return Or(c,And(s.nan(i.l),s.nan(i.u))) if e else c
                        def ipost(D,i,o,k=k,src=src,P=P):
                            s=S(D,k)
                            return Ite(D.isnan(i.l),empties(s,o,P),ret(o,lambda:s.is_(o.lo,o.hi,conv(D,'dn',i.l,src,k),conv(D,'up',i.u,src,k))))
                        for f in('ictor','iasg'): add('%s/%s%s->%s/%s'%(f,R,src,T,P),'%s_%s%s_%s_%s'%(f,R,src,P,T),[('l',st),('u',st)],ipre,ipost,k)
            # from intervals over int, whose empty intervals are pairs in the wrong order
            for f in('ictor','iasg'):
                for R,Q in(('s',P),('o',OTHER[P])):
                    def npre(D,i,e=EMP[Q]): return True if e else i.l<=i.u
                    def npost(D,i,o,k=k,P=P):
                        s=S(D,k); return Ite(Not(ile(i.l,i.u,'int')),empties(s,o,P),ret(o,lambda:s.is_(o.lo,o.hi,conv(D,'dn',i.l,'int',k),conv(D,'up',i.u,'int',k))))
                    add('%s/%sint->%s/%s'%(f,R,T,P),'%s_%sint_%s_%s'%(f,R,P,T),[('l','i32'),('u','i32')],npre,npost,k,'exact')
            tr=lambda D,i:True
            def dp(D,i,o,k=k): s=S(D,k); return ret(o,lambda:s.is_(o.lo,o.hi,s.zero,s.zero))
            def wp(D,i,o,k=k): s=S(D,k); return ret(o,lambda:s.is_(o.lo,o.hi,s.ninf,s.pinf))
            def ep(D,i,o,k=k,P=P): return empties(S(D,k),o,P)
            for f,p in(('dflt',dp),('whole',wp),('empty',ep)): add('%s/%s/%s'%(f,T,P),'%s_%s_%s'%(f,P,T),[],tr,p,k,vectors=2)
    # intervals over int
    for P in('def','ob','sb'):
        e=EMP[P]
        def eqs(f,P=P):
            def post(D,i,o):
                s=S(D,'i32'); return Ite(Not(s.le(i.l,i.u)),empties(s,o,P),ret(o,lambda:s.is_(o.lo,o.hi,i.l,i.u)))
            return post
        tr=lambda D,i:True
        def wide(v):
            import z3
            return v if isinstance(v,int) else z3.SignExt(16,v)
        for f,st in(('pair_sint','i16'),('pair_int','i32'),('assign','i32')):
            def post(D,i,o,P=P,st=st):
                s=S(D,'i32'); w=wide if st=='i16' else (lambda v:v)
                return Ite(Not(s.le(i.l,i.u)),empties(s,o,P),ret(o,lambda:s.is_(o.lo,o.hi,w(i.l),w(i.u))))
            add('%s/int/%s'%(f,P),'%s_%s_int'%(f,P),[('l',st),('u',st)],tr,post,'i32','exact')
        for f in('ctor_sint','asg_sint','ctor_int','asg_int'):
            st='i16' if 'sint' in f else 'i32'
            def post(D,i,o,P=P,st=st):
                s=S(D,'i32'); w=wide if st=='i16' else (lambda v:v); return ret(o,lambda:s.is_(o.lo,o.hi,w(i.v),w(i.v)))
            add('%s/int/%s'%(f,P),'%s_%s_int'%(f,P),[('v',st)],tr,post,'i32','exact')
        for f in('ictor','iasg'):
            for R,Q in(('s',P),('o',OTHER[P])):
                def npre(D,i,e=EMP[Q]): return True if e else i.l<=i.u
                add('%s/%sint->int/%s'%(f,R,P),'%s_%sint_%s_int'%(f,R,P),[('l','i32'),('u','i32')],npre,eqs(f),'i32','exact')
        add('dflt/int/%s'%P,'dflt_%s_int'%P,[],tr,lambda D,i,o:ret(o,lambda:And(o.lo==0,o.hi==0)),'i32','exact',vectors=2)
        add('empty/int/%s'%P,'empty_%s_int'%P,[],tr,lambda D,i,o,P=P:empties(S(D,'i32'),o,P),'i32','exact',vectors=2)
    # an interval assigned from its own bounds
    for T,k in ITYPES:
        for P in('def','sb'):
            for al in('us','sl','ls','su','lu','uu','ll','l','u','x'):
                def apre(D,i,k=k): s=S(D,k); return And(s.wf(i.xl,i.xu),s.fin(i.s) if k!='i32' else True)
                def apost(D,i,o,k=k,P=P,al=al):
                    s=S(D,k); v={'u':i.xu,'l':i.xl,'s':i.s}; l,u={'l':(i.xl,i.xl),'u':(i.xu,i.xu),'x':(i.xl,i.xu)}.get(al) or (v[al[0]],v[al[1]])
                    good=ret(o,lambda:s.is_(o.lo,o.hi,l,u))
                    return Ite(s.le(l,u),good,empties(s,o,P))
                add('alias %s/%s/%s'%(al,T,P),'alias_%s_%s_%s'%(al,P,T),xins(k,'xl','xu','s'),apre,apost,k,'ord' if k!='i32' else 'exact')
    # bounds of different types: an int and a floating-point number
    def m1(D,i,o):
        s=S(D,'double'); c=D.from_int('ne',i.l,32,True,'double')
        return Ite(s.le(c,i.u),ret(o,lambda:s.is_(o.lo,o.hi,c,i.u)),empties(s,o,'def'))
    add('pair/int,double->double','mixpair_double',[('l','i32'),('u','double')],lambda D,i:S(D,'double').fin(i.u),m1,'double','exact')
    def m3(D,i,o):
        s=S(D,'double'); c=D.cvt('ne',i.l,'float','double'); 
        return Ite(s.le(c,i.u),ret(o,lambda:(lambda s2:s2.is_(o.lo,o.hi,i.l,D.cvt('up',i.u,'double','float')))(S(D,'float'))),empties(s,o,'def'))
    add('pair/float,double->float','mixpair3_float',[('l','float'),('u','double')],lambda D,i:And(S(D,'float').fin(i.l),S(D,'double').fin(i.u)),m3,'float')
    return ts
