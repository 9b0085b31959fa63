from spec import *
BOUNDS='one and two intervals written to a recording stream, every bound of float, double, long double and int (for the floating types infinite bounds and the empty interval included), four checking policies; at most 10 items written. How a stream formats one number is the standard library\'s and not encoded'
NEV=10
def tasks(tier):
    ts=[]
    kinds={'float':1,'double':2,'x86_fp80':3,'i32':4}
    for T,k in TYPES+[('int','i32')]:
        isint=k=='i32'
        outs=[('same','i32'),('n','i32'),('lo','i32' if isint else k),('hi','i32' if isint else k)]
        for j in range(NEV): outs+=[('k%d'%j,'i32'),('v%d'%j,k)]
        def items(o,k=k):
            """what was written, in order: characters, or ('num', value); None if the counts are not plain"""
            n=logic_int(o.n)
            if n is None or not 0<=n<=NEV: return None
            r=[]
            for j in range(n):
                c=logic_int(o['k%d'%j])
                if c is None: return None
                r.append(('num',o['v%d'%j]) if c==kinds[k] else ('other',c) if c<8 else ('chr',c))
            return r
        for P in('def','ob','cn','tos') if not isint else('def','ob'):
            def pre(D,i,k=k,P=P,isint=isint):
                if isint: return i.xl<=i.xu if P=='def' else True
                s=S(D,k); return s.wf(i.xl,i.xu) if P in STRICT else Or(s.wf(i.xl,i.xu),And(s.nan(i.xl),s.nan(i.xu)))
            def post(D,i,o,k=k,isint=isint,items=items):
                s=S(D,k)
                same=(lambda a,b:a==b) if isint else s.eq
                def g():
                    it=items(o)
                    if it is None or any(a=='other' for a,v in it): return False
                    nums=[v for a,v in it if a=='num']; emp=s.emp(i.xl,i.xu)
                    kept=And(same(o.lo,i.xl),same(o.hi,i.xu)) if isint else And(s.D.same(o.lo,i.xl),s.D.same(o.hi,i.xu))
                    if not nums: ok=emp if it else False
                    elif len(nums)==2:
                        p=[j for j,(a,v) in enumerate(it) if a=='num']
                        shape=''.join(chr(v) if a=='chr' else '#' for a,v in it)
                        ok=And(Not(emp),same(nums[0],i.xl),same(nums[1],i.xu)) if shape.replace(' ','')=='[#,#]' else False
                    else: ok=False
                    return And(ok,kept,o.same==1)
                return ret(o,g)
            ts.append(Task('<</%s/%s'%(P,T),'io_%s_%s'%(P,T),[('xl',k),('xu',k)],outs,pre,post,domain='exact' if isint else 'ord',fmt=None,entry=0 if isint else 'sym'))
        P='ob'
        def pre2(D,i,k=k,isint=isint):
            if isint: return True
            s=S(D,k); return And(*[Or(s.wf(a,b),And(s.nan(a),s.nan(b))) for a,b in((i.xl,i.xu),(i.yl,i.yu))])
        def post2(D,i,o,k=k,isint=isint,items=items):
            s=S(D,k); same=(lambda a,b:a==b) if isint else s.eq
            def g():
                it=items(o)
                if it is None or any(a=='other' for a,v in it): return False
                shape=''.join(chr(v) if a=='chr' else '#' for a,v in it).replace(' ',''); nums=[v for a,v in it if a=='num']
                ex=s.emp(i.xl,i.xu); ey=s.emp(i.yl,i.yu); V='[#,#]'
                if shape[:5]==V: ok=And(Not(ex),same(nums[0],i.xl),same(nums[1],i.xu)); rest,nums=shape[5:],nums[2:]
                elif shape and shape[0]!='#' :
                    # the marker of an empty interval, then the second interval
                    j=shape.find(V); rest=shape[j:] if j>0 else shape[len(shape)//2:]; ok=ex
                else: return False
                if rest==V: return And(ok,Not(ey),same(nums[0],i.yl),same(nums[1],i.yu))
                return And(ok,ey) if rest and not nums else False
            return ret(o,g)
        ts.append(Task('<< <</%s/%s'%(P,T),'io2_%s_%s'%(P,T),[('xl',k),('xu',k),('yl',k),('yu',k)],outs,pre2,post2,domain='exact' if isint else 'ord',entry=0 if isint else 'sym'))
    return ts
def logic_int(v):
    if isinstance(v,int): return v
    import z3
    v=z3.simplify(v); return v.as_signed_long() if z3.is_bv_value(v) else None
