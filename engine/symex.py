"""Path-based symbolic executor over LLVM IR produced by clang from the current sources."""
import z3, re, time
import llvmir, logic
from domains import *
from fractions import Fraction

FE={0:'ne',0x400:'dn',0x800:'up',0xc00:'rz'}
EF={v:k for k,v in FE.items()}

class Ptr:
    __slots__=('o','off')
    def __init__(s,o,off=0): s.o=o; s.off=off
    def __repr__(s): return 'Ptr(%s+%d)'%(s.o,s.off)
    def __eq__(s,t): return isinstance(t,Ptr) and s.o==t.o and s.off==t.off
    def __hash__(s): return hash((s.o,s.off))
NULL=Ptr(0,0)
class FPtr:
    def __init__(s,f): s.f=f
    def __eq__(s,t): return isinstance(t,FPtr) and s.f is t.f
    def __hash__(s): return hash(s.f.name)
class FPBits:
    """bit pattern of a number in a domain without bit patterns: only sign tests are supported"""
    def __init__(s,v,k): s.v=v; s.k=k
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()

class Throw(Exception):
    def __init__(s,tinfo,obj): s.tinfo=tinfo; s.obj=obj
class Abort(Exception):
    def __init__(s,why): s.why=why
class PathEnd(Exception): pass     # infeasible / bound reached
class Bound(Exception): pass

class Obj:
    __slots__=('size','cells','const','name')
    def __init__(s,size,name=''): s.size=size; s.cells={}; s.name=name; s.const=False

class Outcome:
    """one explored path"""
    def __init__(s): s.kind=None; s.tname=None; s.mode=None; s.conds=None; s.cons=None; s.outs=None; s.events=None; s.ub=[]; s.apps=None; s.ret=None

class Executor:
    def __init__(self,module,domain,max_paths=4000,max_steps=400000,max_depth=60,timeout=300,solver_ms=20000,ext=None,stop_at_bound=False):
        self.m=module; self.D=domain; self.max_paths=max_paths; self.max_steps=max_steps; self.max_depth=max_depth
        self.deadline=time.time()+timeout; self.solver_ms=solver_ms
        self.ext={} if ext is None else ext
        self.functions=set()
        self.queries=0; self.qtime=0.0; self.unknown=0
        self.decided={}
        self.bounded=0
        self.steps_total=0
        self.gwritten=set(); self._init=False      # global variables some path has written
        self.loopbound=None; self.recbound=None; self.feas_ms=None; self._fm=None; self.reused=0
    # ------------------------------------------------------------------ path enumeration
    def explore(self,fname,setup):
        """setup(ex) -> list of argument values (allocating memory).  yields Outcome for each feasible path"""
        fn=self.m.funcs[fname]
        work=[()]; n=0
        while work:
            if n>=self.max_paths or time.time()>self.deadline:
                self.bounded+=len(work); self.incomplete='path or time budget'; return
            prefix=work.pop()
            self.prefix=prefix; self.trace=[]; self.pending=[]
            o=self._run(fn,setup)
            work.extend(self.pending)
            n+=1
            if o is not None: yield o
    incomplete=None
    def _run(self,fn,setup):
        D=self.D; D.reset()
        self.objs={}; self.nobj=1; self.conds=[]; self.steps=0; self.gobj={}; self.depth=0; self.events=[]; self.ub=[]
        self.mode=0; self.known={}; self.keepb=[]; self._sol=None; self._fm=None; self._nc=self._nd=0; self.exc=None; self.nsym=0; self.loopcount={}; self.guards={}; self.active_calls={}
        o=Outcome()
        try:
            args=setup(self)
            try:
                r=self.call(fn,args)
                o.kind='ret'; o.ret=r
            except Throw as t: o.kind='throw'; o.tname=t.tinfo
            except Abort as a: o.kind='abort'; o.tname=a.why
            o.mode=self.mode
        except PathEnd: return None
        except Bound as b:
            self.bounded+=1; o.kind='bound'; o.tname=str(b); o.mode=self.mode
        o.conds=list(self.conds); o.cons=list(D.cons); o.events=self.events; o.ub=list(self.ub); o.apps=list(D.apps)
        o.state=self._snap()
        return o
    def _snap(self): return (self.objs,)
    # ------------------------------------------------------------------ solver
    def check(self,extra,model=False):
        """satisfiability of the path condition, the domain constraints and extra"""
        extra=[e for e in extra if e is not True]
        if any(e is False for e in extra): return z3.unsat
        t=time.time(); self.queries+=1
        D=self.D
        if getattr(D,'incremental',False):
            if self._sol is None: self._sol=D.new_solver(self.solver_ms); self._nc=self._nd=0
            s=self._sol
            if self._nc<len(D.cons): s.add(D.cons[self._nc:]); self._nc=len(D.cons)
            if self._nd<len(self.conds): s.add(self.conds[self._nd:]); self._nd=len(self.conds)
            s.push(); s.add(extra); r=s.check()
            if model and r==z3.sat: self.model=s.model()
            s.pop()
        else:
            s=D.new_solver(self.solver_ms)
            s.add(D.cons); s.add(self.conds); s.add(extra)
            r=s.check()
            if model and r==z3.sat: self.model=s.model()
        self.qtime+=time.time()-t
        if r==z3.unknown: self.unknown+=1
        return r
    def feasible(self,cd):
        """may the path go this way?  (an undecided query counts as yes, which is the safe side)"""
        D=self.D
        if not getattr(D,'incremental',False): return self.check([cd])!=z3.unsat
        if self._fm is not None and self._fmn==len(D.cons) and self._fmc<=len(self.conds) and z3.is_expr(cd):
            m=self._fm
            if all(z3.is_true(m.eval(c,model_completion=True)) for c in self.conds[self._fmc:]+[cd] if z3.is_expr(c)): self.reused+=1; return True
        if self._sol is None: self._sol=D.new_solver(self.solver_ms); self._nc=self._nd=0
        if self.feas_ms: self._sol.set('timeout',self.feas_ms)
        unk=self.unknown; r=self.check([cd],model=True)
        if self.feas_ms: self._sol.set('timeout',self.solver_ms)
        if r==z3.sat: self._fm=self.model; self._fmn=len(D.cons); self._fmc=len(self.conds)
        elif self.feas_ms: self.unknown=unk
        return r!=z3.unsat
    def fork(self,conds):
        """n-way exclusive decision; returns chosen index and assumes its condition"""
        i=len(self.trace)
        if i<len(self.prefix):
            c=self.prefix[i]
        else:
            key=tuple(self.trace)
            feas=self.decided.get(key)
            if feas is None:
                feas=[]
                for j,cd in enumerate(conds):
                    if j==len(conds)-1 and not feas: feas.append(j); break   # the path so far is feasible, so the last one must be
                    if self.feasible(cd): feas.append(j)
                self.decided[key]=feas
            if not feas: raise PathEnd()
            c=feas[0]
            for j in feas[1:]: self.pending.append(tuple(self.trace)+(j,))
            self.prefix=tuple(self.trace)+(c,)
        self.trace.append(c); self.addcond(conds[c])
        return c
    def addcond(self,c):
        self.conds.append(c)
        if z3.is_expr(c): self.known[c.get_id()]=True
    def assume(self,c):
        if c is True: return
        if c is False: raise PathEnd()
        self.conds.append(c)
    def truth(self,b):
        if isinstance(b,(bool,int)): return bool(b)
        if b is UNDEF: raise Unsupported('branch on undef')
        if z3.is_bv(b): b=(b==1)
        neg=False
        while z3.is_not(b): b=b.arg(0); neg=not neg
        k=self.known.get(b.get_id())
        if k is None:
            b2=z3.simplify(b)
            k=True if z3.is_true(b2) else False if z3.is_false(b2) else None
        if k is None:
            nb=z3.Not(b); self.keepb.append(nb)
            k=self.fork([b,nb])==0
            self.known[b.get_id()]=k; self.keepb.append(b)
        return k!=neg
        b2=None
        return self.fork([b,z3.Not(b)])==0
    # ------------------------------------------------------------------ memory
    def alloc(self,size,name=''):
        i=self.nobj; self.nobj+=1; self.objs[i]=Obj(size,name); return Ptr(i,0)
    def store(self,p,val,ty):
        if not isinstance(p,Ptr) or p.o==0: raise Abort('store through bad pointer')
        ob=self.objs[p.o]
        if ob.name[:1]=='@' and not self._init: self.gwritten.add(ob.name[1:])
        if ty.k=='struct':
            for t,o,v in zip(ty.fields,ty.offs,self._elts(val,ty)): self.store(Ptr(p.o,p.off+o),v,t)
            return
        if ty.k in('array','vector'):
            for j,v in enumerate(self._elts(val,ty)): self.store(Ptr(p.o,p.off+j*ty.elts.size),v,ty.elts)
            return
        if p.off<0 or p.off+ty.store>ob.size: raise Abort('out of bounds store')
        # drop overlapped
        for o in list(ob.cells):
            v,t=ob.cells[o]
            if o<p.off+ty.store and p.off<o+t.store and o!=p.off: 
                if t.k=='int' and isinstance(v,int):
                    self._split(ob,o,v,t)
                    continue
                del ob.cells[o]
        for o in list(ob.cells):
            v,t=ob.cells[o]
            if o<p.off+ty.store and p.off<o+t.store and o!=p.off: del ob.cells[o]
        ob.cells[p.off]=(val,ty)
    def _split(self,ob,o,v,t):
        del ob.cells[o]
        for j in range(t.store): ob.cells[o+j]=((v>>(8*j))&255,self.i8())
    def i8(self):
        if not hasattr(self,'_i8'):
            t=llvmir.Ty(); t.k='int'; t.n=8; t.size=t.store=1; t.elts=t.offs=t.fields=None; self._i8=t
        return self._i8
    def _elts(self,val,ty):
        if val is UNDEF: return [UNDEF]*ty.n
        return val
    def load(self,p,ty):
        if not isinstance(p,Ptr) or p.o==0: raise Abort('load through bad pointer')
        ob=self.objs[p.o]
        if ty.k=='struct': return [self.load(Ptr(p.o,p.off+o),t) for t,o in zip(ty.fields,ty.offs)]
        if ty.k in('array','vector'): return [self.load(Ptr(p.o,p.off+j*ty.elts.size),ty.elts) for j in range(ty.n)]
        if p.off<0 or p.off+ty.store>ob.size: raise Abort('out of bounds load')
        c=ob.cells.get(p.off)
        if c is not None:
            v,t=c
            if t.k==ty.k and (t.k!='int' or t.n==ty.n): return v
            if t.store==ty.store: return self.bitcast(v,t,ty)
            if t.k=='int' and ty.k=='int' and t.n>ty.n:
                return (v&((1<<ty.n)-1)) if isinstance(v,int) else (z3.Extract(ty.n-1,0,v) if z3.is_bv(v) else UNDEF)
        if ty.k=='int':
            bs=[]
            for j in range(ty.store):
                b=self._byte(ob,p.off+j)
                if b is None: break
                bs.append(b)
            if len(bs)==ty.store: return sum(b<<(8*j) for j,b in enumerate(bs))&((1<<ty.n)-1)
        # uninitialised: arbitrary value
        self.nsym+=1
        self.events.append(('uninit',))
        if ty.isfp: return self.D.fresh(ty.k,'uninit!%d'%self.nsym)
        if ty.k=='int': return z3.BitVec('uninit!%d'%self.nsym,ty.n) if ty.n>1 else z3.Bool('uninit!%d'%self.nsym)
        raise Abort('load of uninitialised pointer')
    def _byte(self,ob,o):
        for k,(v,t) in ob.cells.items():
            if k<=o<k+t.store and t.k=='int' and isinstance(v,int): return (v>>(8*(o-k)))&255
        return None
    def bitcast(self,v,f,t):
        if f.k==t.k and f.n==t.n: return v
        if v is UNDEF: return UNDEF
        if f.isfp and t.k=='int':
            try: return self.D.bits(v,f.k)
            except Unsupported: return FPBits(v,f.k)
        if isinstance(v,FPBits): return v.v
        if f.k=='int' and t.isfp: return self.D.from_bits(v,t.k)
        if f.k=='vector' and t.k in('int','float','double') or t.k=='vector': 
            tmp=self.alloc(max(f.size,t.size)); self.store(tmp,v,f); return self.load(tmp,t)
        raise Unsupported('bitcast %s -> %s'%(f.k,t.k))
    def memcpy(self,d,s,n):
        if n==0: return
        so,do=self.objs[s.o],self.objs[d.o]
        if do.name[:1]=='@': self.gwritten.add(do.name[1:])
        items=[(o,c) for o,c in so.cells.items() if s.off<=o and o+c[1].store<=s.off+n]
        for o in list(do.cells):
            v,t=do.cells[o]
            if o<d.off+n and d.off<o+t.store: del do.cells[o]
        for o,c in items: do.cells[d.off+o-s.off]=c
    # ------------------------------------------------------------------ constants
    def cval(self,op,env):
        k=op[0]
        if k=='v': 
            return env[op[1]]
        if k=='int': return op[2]
        if k=='fp': return self.D.const(op[1].k,op[2])
        if k=='null': return NULL
        if k=='f': return FPtr(op[1])
        if k=='g': return self.gptr(op[1])
        if k=='undef': 
            t=op[1]
            return [UNDEF]*t.n if t.k in('struct','array','vector') else UNDEF
        if k=='zero': return self.zero(op[1])
        if k=='agg': return [self.cval(o,env) for o in op[2]]
        if k=='cexpr':
            _,o,t,ops,st=op
            if o=='gep': return self.gep(self.cval(ops[0],env),st,[self.cval(x,env) for x in ops[1:]])
            if o in('bitcast','addrspacecast','inttoptr','ptrtoint'): return self.cval(ops[0],env)
            raise Unsupported('constant expression '+str(o))
        if k=='md': return op
        raise Unsupported('operand %s'%(op,))
    def zero(self,t):
        if t.k=='int': return 0
        if t.isfp: return self.D.num(t.k,0)
        if t.k=='ptr': return NULL
        if t.k=='struct': return [self.zero(x) for x in t.fields]
        if t.k in('array','vector'): return [self.zero(t.elts) for _ in range(t.n)]
        raise Unsupported('zero of '+t.k)
    def gptr(self,name):
        p=self.gobj.get(name)
        if p is None:
            t,init=self.m.ginit(name)
            p=self.alloc(t.size or 8,'@'+name); self.gobj[name]=p
            if init is not None:
                v=self.cval(init,{}); ini,self._init=self._init,True
                self.store(p,v,t); self._init=ini
        return p
    def gep(self,p,st,idx):
        if not isinstance(p,Ptr): raise Unsupported('gep on non pointer')
        off=p.off; t=st
        for j,i in enumerate(idx):
            if j==0: off+=self.sint(i,64)*t.size if not isinstance(i,list) else 0
            elif t.k=='struct':
                off+=t.offs[i]; t=t.fields[i]
            else:
                off+=self.sint(i,64)*t.elts.size; t=t.elts
        return Ptr(p.o,off)
    def sint(self,i,w):
        if isinstance(i,int):
            # index width follows its own type; treat as 64-bit two's complement if large
            if i>=1<<63: return i-(1<<64)
            if (1<<31)<=i<(1<<32): return i-(1<<32) if w==32 else i
            return i
        if z3.is_bv(i) or z3.is_bool(i):
            return self.concretize(i)
        raise Unsupported('index')
    def concretize(self,e,limit=64):
        """fork over all feasible values of an integer expression"""
        if isinstance(e,int): return e
        if z3.is_bool(e): return 1 if self.truth(e) else 0
        e=z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
        if len(self.trace)<len(self.prefix):
            v=self.prefix[len(self.trace)]
            val=v[1]; self.trace.append(v); self.conds.append(e==val); return val if val<(1<<(e.size()-1)) or e.size()<64 else val-(1<<64)
        key=tuple(self.trace); vals=self.decided.get(key)
        if vals is None:
            vals=[]; s=self.D.new_solver(self.solver_ms); s.add(self.D.cons); s.add(self.conds); self.queries+=1
            while True:
                r=s.check(); self.queries+=1
                if r!=z3.sat: break
                v=s.model().eval(e,model_completion=True).as_long(); vals.append(v); s.add(e!=v)
                if len(vals)>limit: raise Unsupported('too many values for a symbolic index')
            self.decided[key]=vals
        if not vals: raise PathEnd()
        for v in vals[1:]: self.pending.append(tuple(self.trace)+(('c',v),))
        v=vals[0]; self.trace.append(('c',v)); self.prefix=tuple(self.trace); self.conds.append(e==v)
        return v
    # ------------------------------------------------------------------ rounding mode
    def rm(self):
        m=self.mode
        if isinstance(m,int):
            if m not in FE: raise Abort('invalid rounding mode')
            return FE[m]
        vals=[0,0x400,0x800,0xc00]
        i=self.fork([m==v for v in vals]); return FE[vals[i]]
    # ------------------------------------------------------------------ calls
    def call(self,fn,args):
        if fn.decl: return self.extern(fn.name,args,None)
        if self.depth>=self.max_depth: raise Bound('recursion depth')
        self.functions.add(fn.name)
        self.depth+=1
        n=self.active_calls.get(fn.name,0)+1
        if self.recbound and n>self.recbound: self.depth-=1; raise Bound('recursion bound %d in %s'%(self.recbound,fn.name))
        self.active_calls[fn.name]=n
        try: return self._exec(fn,args)
        finally: self.depth-=1; self.active_calls[fn.name]=n-1
    def _exec(self,fn,args):
        params,blocks,nids=self.m.body(fn)
        env={}
        for (i,t),a in zip(params,args): env[i]=a
        bi=0; prev=None; frame_loops={}
        while True:
            frame_loops[bi]=frame_loops.get(bi,0)+1
            if self.loopbound and frame_loops[bi]>self.loopbound: raise Bound('loop bound %d in %s'%(self.loopbound,fn.name))
            instrs=blocks[bi]
            # phis in parallel
            newphi=[]
            idx=0
            for ins in instrs:
                if ins.op!='phi': break
                for b,op in ins.x:
                    if b==prev: newphi.append((ins.id,self.cval(op,env))); break
                idx+=1
            for i,v in newphi: env[i]=v
            nxt=None
            for ins in instrs[idx:]:
                self.steps+=1; self.steps_total+=1
                if self.steps>self.max_steps: raise Bound('step bound')
                r=self.step(fn,ins,env)
                if r is not None:
                    if r[0]=='ret': return r[1]
                    nxt=r[1]; break
            prev=bi; bi=nxt
    def step(self,fn,ins,env):
        op=ins.op; D=self.D
        D.curk=ins.ty.k
        V=lambda j:self.cval(ins.ops[j],env)
        if op=='load': env[ins.id]=self.load(V(0),ins.ty); return
        if op=='store': self.store(V(1),V(0),ins.x); return
        if op=='alloca':
            n=V(0)
            env[ins.id]=self.alloc((ins.x.size or 1)*(n if isinstance(n,int) else 1)); return
        if op=='gep':
            idx=[]
            for j in range(1,len(ins.ops)):
                o=ins.ops[j]; v=self.cval(o,env)
                if o[0]=='int' and o[1].n==32 and v>=1<<31: v-=1<<32
                if o[0]=='v' and z3.is_bv(v) and v.size()<64: v=z3.SignExt(64-v.size(),v)
                idx.append(v)
            env[ins.id]=self.gep(V(0),ins.x,idx); return
        if op in('call','invoke'): return self.do_call(fn,ins,env)
        if op=='br':
            if len(ins.x)==1: return ('br',ins.x[0])
            return ('br',ins.x[0] if self.truth(V(0)) else ins.x[1])
        if op=='ret': return ('ret',V(0) if ins.ops else None)
        if op=='fcmp': env[ins.id]=self.fcmp(ins.x,V(0),V(1)); return
        if op=='icmp': env[ins.id]=self.icmp(ins.x[0],V(0),V(1),ins.x[1]); return
        if op=='fneg': 
            a=V(0); env[ins.id]=[D.neg(x) for x in a] if isinstance(a,list) else (UNDEF if a is UNDEF else D.neg(a)); return
        if op in('fadd','fsub','fmul','fdiv'):
            env[ins.id]=self.fbin(op[1:],V(0),V(1)); return
        if op in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','sdiv','urem','srem'):
            env[ins.id]=self.ibin(op,V(0),V(1),ins.ty.n,ins.x is True); return
        if op in('zext','sext','trunc'): env[ins.id]=self.icast(op,V(0),ins.x.n,ins.ty.n); return
        if op=='select':
            c=V(0)
            if isinstance(c,(int,bool)): env[ins.id]=V(1) if c else V(2); return
            a,b=V(1),V(2)
            if z3.is_bv(c): c=(c==1)
            if ins.ty.isfp: env[ins.id]=D.ite(c,a,b)
            elif ins.ty.k=='int' and a is not UNDEF and b is not UNDEF: env[ins.id]=z3.If(c,self.tobv(a,ins.ty.n),self.tobv(b,ins.ty.n)) if ins.ty.n>1 else z3.If(c,self.tobool(a),self.tobool(b))
            else: env[ins.id]=a if self.truth(c) else b
            return
        if op=='phi': raise Unsupported('phi')
        if op=='switch':
            v=V(0); dflt,cases=ins.x
            if isinstance(v,int):
                for c,b in cases:
                    if c==v: return ('br',b)
                return ('br',dflt)
            if z3.is_bool(v): v=z3.If(v,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
            cs=[v==c for c,b in cases]
            i=self.fork(cs+[z3.And([z3.Not(c) for c in cs])])
            return ('br',cases[i][1] if i<len(cases) else dflt)
        if op in('fpext','fptrunc'): env[ins.id]=D.cvt(self.rm() if op=='fptrunc' else 'ne',V(0),ins.x.k,ins.ty.k); return
        if op in('sitofp','uitofp'): env[ins.id]=D.from_int(self.rm(),V(0),ins.x.n,op=='sitofp',ins.ty.k); return
        if op in('fptosi','fptoui'): env[ins.id]=D.to_int(V(0),ins.ty.n,op=='fptosi'); return
        if op=='bitcast': env[ins.id]=self.bitcast(V(0),ins.x,ins.ty) if ins.ty.k!='ptr' else V(0); return
        if op in('freeze','addrspacecast'): env[ins.id]=V(0); return
        if op in('ptrtoint','inttoptr'): env[ins.id]=V(0); return
        if op=='extractvalue':
            v=V(0)
            for i in ins.x: v=UNDEF if v is UNDEF else v[i]
            env[ins.id]=v; return
        if op=='insertvalue':
            a=V(0); env[ins.id]=self.insert(a,ins.x,V(1),ins.ty); return
        if op=='extractelement': 
            env[ins.id]=V(0)[self.concretize(V(1))]; return
        if op=='insertelement':
            a=V(0); a=[UNDEF]*ins.ty.n if a is UNDEF else list(a); a[self.concretize(V(2))]=V(1); env[ins.id]=a; return
        if op=='landingpad':
            env[ins.id]=[Ptr(self.exc_obj(),0),self.selector(ins)]; return
        if op=='resume':
            e=self.exc; raise Throw(e[0],e[1])
        if op=='unreachable': raise Abort('unreachable')
        if op=='fence': return
        raise Unsupported('instruction %s %s'%(op,ins.txt or ''))
    def insert(self,a,idx,v,ty):
        if a is UNDEF: a=[UNDEF]*ty.n
        a=list(a)
        if len(idx)==1: a[idx[0]]=v
        else: a[idx[0]]=self.insert(a[idx[0]],idx[1:],v,ty.fields[idx[0]] if ty.k=='struct' else ty.elts)
        return a
    # exceptions
    def exc_obj(self): return self.exc[1].o if isinstance(self.exc[1],Ptr) else 0
    def selector(self,ins):
        cleanup,clauses=ins.x
        t=self.exc[0]
        for c in clauses:
            if c[0]=='null': return self.typeid('*')
            if c[0]=='g' and self.is_base(c[1],t): return self.typeid(c[1])
        return 0
    def typeid(self,n):
        d=self.__dict__.setdefault('_tids',{}); return d.setdefault(n,len(d)+1)
    KNOWN_BASES={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],'_ZTISt16invalid_argument':['_ZTISt11logic_error'],
                 '_ZTISt12domain_error':['_ZTISt11logic_error'],'_ZTISt12out_of_range':['_ZTISt11logic_error'],'_ZTISt11range_error':['_ZTISt13runtime_error'],'_ZTISt14overflow_error':['_ZTISt13runtime_error']}
    def bases(self,t):
        if t in self.KNOWN_BASES: return self.KNOWN_BASES[t]
        out=[]
        try:
            ty,init=self.m.ginit(t)
            if init and init[0]=='agg':
                for o in init[2][2:]:
                    if o[0]=='g': out.append(o[1])
        except KeyError: pass
        return out
    def is_base(self,b,t):
        if b==t: return True
        return any(self.is_base(b,x) for x in self.bases(t))
    # ------------------------------------------------------------------ int ops
    def tobv(self,v,w):
        if isinstance(v,bool): v=int(v)
        if isinstance(v,int): return z3.BitVecVal(v,w)
        if z3.is_bool(v): return z3.If(v,z3.BitVecVal(1,w),z3.BitVecVal(0,w))
        if v is UNDEF:
            self.nsym+=1; return z3.BitVec('undef!%d'%self.nsym,w)
        return v
    def tobool(self,v):
        if isinstance(v,(bool,int)): return z3.BoolVal(bool(v))
        if z3.is_bool(v): return v
        return v==1
    def ibin(self,op,a,b,w,nsw):
        if isinstance(a,list): raise Unsupported('vector int op')
        if isinstance(a,int) and isinstance(b,int):
            M=(1<<w)-1; sa=a-(1<<w) if a>>(w-1) else a; sb=b-(1<<w) if b>>(w-1) else b
            if op in('add','sub','mul'):
                r={'add':sa+sb,'sub':sa-sb,'mul':sa*sb}[op]
                if nsw and not -(1<<(w-1))<=r<(1<<(w-1)): self.ub.append(('signed overflow',z3.BoolVal(True)))
                return r&M
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&M
            if op=='lshr': return a>>b
            if op=='ashr': return (sa>>b)&M
            if op in('udiv','urem'):
                if b==0: raise Abort('division by zero')
                return a//b if op=='udiv' else a%b
            if b==0: raise Abort('division by zero')
            q=abs(sa)//abs(sb); q=-q if (sa<0)!=(sb<0) else q
            return (q if op=='sdiv' else sa-q*sb)&M
        if w==1 and op in('and','or','xor'):
            x,y=self.tobool(a),self.tobool(b); return {'and':z3.And,'or':z3.Or,'xor':z3.Xor}[op](x,y)
        x,y=self.tobv(a,w),self.tobv(b,w)
        if op=='mul' and hasattr(self.D,'imul'):
            r,ok=self.D.imul(x,y,w)
            if nsw: self.ub.append(('signed overflow',z3.Not(ok)))
            return r
        if op in('add','sub','mul'):
            if nsw:
                if op=='add': ok=z3.And(z3.BVAddNoOverflow(x,y,True),z3.BVAddNoUnderflow(x,y))
                elif op=='sub': ok=z3.And(z3.BVSubNoOverflow(x,y),z3.BVSubNoUnderflow(x,y,True))
                else: ok=z3.And(z3.BVMulNoOverflow(x,y,True),z3.BVMulNoUnderflow(x,y))
                self.ub.append(('signed overflow',z3.Not(ok)))
            return {'add':x+y,'sub':x-y,'mul':x*y}[op]
        if op in('udiv','sdiv','urem','srem'):
            if self.truth(y==0): raise Abort('division by zero')
            if op in('sdiv','srem'): self.ub.append(('signed overflow',z3.And(x==z3.BitVecVal(1<<(w-1),w),y==z3.BitVecVal(-1,w))))
            return {'udiv':lambda:z3.UDiv(x,y),'sdiv':lambda:x/y,'urem':lambda:z3.URem(x,y),'srem':lambda:z3.SRem(x,y)}[op]()
        return {'and':lambda:x&y,'or':lambda:x|y,'xor':lambda:x^y,'shl':lambda:x<<y,'lshr':lambda:z3.LShR(x,y),'ashr':lambda:x>>y}[op]()
    def icast(self,op,a,f,t):
        if a is UNDEF: return UNDEF
        if isinstance(a,int):
            a=int(a)
            if op=='trunc': return a&((1<<t)-1)
            if op=='sext' and a>>(f-1): return (a-(1<<f))&((1<<t)-1)
            return a
        if isinstance(a,(Ptr,FPtr)): return a
        if z3.is_bool(a):
            if t==1: return a
            return z3.If(a,z3.BitVecVal(1 if op=='zext' else -1,t),z3.BitVecVal(0,t))
        if op=='trunc':
            r=z3.Extract(t-1,0,a)
            return z3.simplify(r)==1 if t==1 else r
        return z3.ZeroExt(t-f,a) if op=='zext' else z3.SignExt(t-f,a)
    def icmp(self,p,a,b,ty):
        if isinstance(a,FPBits):
            sb=self.D.signbit(a.v)
            if p=='slt' and b==0 or p=='sle' and b==(1<<ty.n)-1: return sb
            if p=='sge' and b==0 or p=='sgt' and b==(1<<ty.n)-1: return logic.Not(sb)
            raise Unsupported('bit pattern comparison')
        if isinstance(a,(Ptr,FPtr)) or isinstance(b,(Ptr,FPtr)):
            if p=='eq': return int(a==b)
            if p=='ne': return int(not a==b)
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o:
                return int({'ult':a.off<b.off,'ule':a.off<=b.off,'ugt':a.off>b.off,'uge':a.off>=b.off}[p])
            raise Unsupported('pointer comparison')
        if isinstance(a,int) and isinstance(b,int):
            w=ty.n
            if p[0]=='s':
                a=a-(1<<w) if a>>(w-1) else a; b=b-(1<<w) if b>>(w-1) else b
            q=p[-2:]
            return int({'eq':a==b,'ne':a!=b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[q])
        w=ty.n
        if w==1 and p in('eq','ne'):
            r=self.tobool(a)==self.tobool(b); return r if p=='eq' else z3.Not(r)
        x,y=self.tobv(a,w),self.tobv(b,w)
        return {'eq':lambda:x==y,'ne':lambda:x!=y,'ugt':lambda:z3.UGT(x,y),'uge':lambda:z3.UGE(x,y),'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y),
                'sgt':lambda:x>y,'sge':lambda:x>=y,'slt':lambda:x<y,'sle':lambda:x<=y}[p]()
    # ------------------------------------------------------------------ fp ops
    def fbin(self,op,a,b,rm=None):
        if isinstance(a,list): return [self.fbin(op,x,y,rm) for x,y in zip(a,b)]
        return self.D.binop(op,rm or self.rm(),a,b)
    def fcmp(self,p,a,b):
        if isinstance(a,list): raise Unsupported('vector compare')
        r=self.D.cmp(p,a,b)
        if isinstance(r,bool): return int(r)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r
    # ------------------------------------------------------------------ call dispatch
    def do_call(self,fn,ins,env):
        cal,dest=ins.x
        args=[self.cval(o,env) for o in ins.ops]
        self.D.curk=ins.ty.k
        try:
            if cal[0]=='f': f=cal[1]
            elif cal[0]=='v':
                p=env[cal[1]]
                if not isinstance(p,FPtr): raise Abort('call through bad pointer')
                f=p.f
            elif cal[0]=='asm':
                h=self.ext.get('asm')
                if h is None: raise Unsupported('inline asm '+cal[1])
                r=h(self,cal[1],args,ins); f=None
            else: raise Unsupported('callee')
            if f is not None:
                h=self.ext.get(f.name)
                if h is not None: r=h(self,args,ins)
                elif f.decl: r=self.extern(f.name,args,ins)
                else: r=self.call(f,args)
            env[ins.id]=r
        except Throw as t:
            if dest is None: raise
            self.exc=(t.tinfo,t.obj)
            return ('br',dest[1])
        if dest is not None: return ('br',dest[0])
    MATH1={'exp','log','sin','cos','tan','asin','acos','atan','sinh','cosh','tanh','asinh','acosh','atanh'}
    def extern(self,name,args,ins):
        D=self.D
        if name.startswith('llvm.'): return self.intrinsic(name,args,ins)
        if name=='fesetround':
            v=args[0]
            if isinstance(v,int):
                if v in FE: self.mode=v; return 0
                return 1
            self.mode=v; return 0      # a previously saved mode
        if name=='fegetround': return self.mode
        base,k=name,'double'
        if base not in self.MATH1 and base not in('sqrt','rint','nearbyint','floor','ceil','trunc','round','fabs','fmin','fmax','copysign'):
            if base.endswith('f') : base,k=base[:-1],'float'
            elif base.endswith('l'): base,k=base[:-1],'x86_fp80'
        if base in('rint','nearbyint'): return D.rint(self.rm(),args[0])
        if base=='floor': return D.rint('dn',args[0])
        if base=='ceil': return D.rint('up',args[0])
        if base=='trunc': return D.rint('rz',args[0])
        if base=='fabs': return D.abs(args[0])
        if base=='sqrt': return D.sqrt(self.rm(),args[0])
        if base=='fmin': return self.minmax(args,'olt')
        if base=='fmax': return self.minmax(args,'ogt')
        if base in self.MATH1: return D.libm(base,self.rm(),args[0],k)
        if name=='__cxa_allocate_exception': return self.alloc(args[0] if isinstance(args[0],int) else 64,'exc')
        if name=='__cxa_throw':
            t=args[1]
            tn=[n for n,p in self.gobj.items() if p.o==t.o]
            raise Throw(tn[0] if tn else '?',args[0])
        if name=='__cxa_free_exception': return None
        if name=='__cxa_begin_catch': self.caught=getattr(self,'caught',[])+[self.exc]; return args[0]
        if name=='__cxa_end_catch': return None
        if name=='__cxa_rethrow': e=self.caught[-1]; raise Throw(e[0],e[1])
        if name=='__cxa_guard_acquire':
            p=args[0]
            if self.guards.get((p.o,p.off)): return 0
            return 1
        if name in('__cxa_guard_release',): self.guards[(args[0].o,args[0].off)]=1; self.store(args[0],1,self.i8()); return None
        if name=='__cxa_guard_abort': return None
        if name in('__assert_fail','abort','_ZSt9terminatev','__clang_call_terminate','exit'): raise Abort(name)
        if re.match(r'_ZNSt\d+(runtime_error|logic_error|invalid_argument|domain_error|range_error|overflow_error|out_of_range)[CD][12]E',name): return None
        if name in('_ZdlPv','_ZdlPvm','_ZNSt9exceptionD2Ev'): return None
        if name in('_Znwm',): return self.alloc(self.concretize(args[0]),'heap')
        raise Unsupported('external function '+name)
    def minmax(self,args,p):
        D=self.D; a,b=args
        c=D.cmp(p,a,b); 
        if D.native is False and D.name=='real': return D.ite(c,a,b)
        return D.ite(D.isnan(b),a,D.ite(D.isnan(a),b,D.ite(c,a,b)))
    CPRED={'oeq','one','ogt','oge','olt','ole','ord','uno','ueq','une','ugt','uge','ult','ule'}
    def intrinsic(self,name,args,ins):
        D=self.D
        n=name[5:]
        if n.startswith('experimental.constrained.'):
            op=n.split('.')[2]
            md=[a[1] for a in args if isinstance(a,tuple) and a and a[0]=='md']
            v=[a for a in args if not(isinstance(a,tuple) and a and a[0]=='md')]
            def rmode():
                for x in md:
                    if 'round.' in x:
                        if 'dynamic' in x: return self.rm()
                        for q,r in(('tonearest','ne'),('downward','dn'),('upward','up'),('towardzero','rz')):
                            if q in x: return r
                return self.rm()
            if op in('fadd','fsub','fmul','fdiv'): return self.fbin(op[1:],v[0],v[1],rmode())
            if op in('fcmp','fcmps'):
                for x in md:
                    mm=re.search(r'!"(\w+)"',x)
                    if mm and mm.group(1) in self.CPRED: return self.fcmp(mm.group(1),v[0],v[1])
                raise Unsupported('fcmp predicate')
            if op=='sqrt': return D.sqrt(rmode(),v[0])
            if op in('fpext',):
                f,t=self.fpsuffix(name); return D.cvt('ne',v[0],f,t)
            if op=='fptrunc':
                f,t=self.fpsuffix(name); return D.cvt(rmode(),v[0],f,t)
            if op in('sitofp','uitofp'):
                parts=name.split('.'); t=self.SUF[parts[-2]]; w=int(parts[-1][1:])
                return D.from_int(rmode(),v[0],w,op=='sitofp',t)
            if op in('fptosi','fptoui'):
                w=int(name.split('.')[-2][1:]); return D.to_int(v[0],w,op=='fptosi')
            if op in('rint','nearbyint'): return D.rint(rmode(),v[0])
            if op=='floor': return D.rint('dn',v[0])
            if op=='ceil': return D.rint('up',v[0])
            if op=='trunc': return D.rint('rz',v[0])
            if op=='minnum': return self.minmax(v,'olt')
            if op=='maxnum': return self.minmax(v,'ogt')
            if op=='fma': return D.fma(rmode(),*v)
            if op=='fmuladd': return self.fbin('add',self.fbin('mul',v[0],v[1],rmode()),v[2],rmode())
            if op in self.MATH1: return D.libm(op,rmode(),v[0],self.SUF[name.split('.')[-1]])
            raise Unsupported(name)
        op=n.split('.')[0]
        if op=='fabs': return D.abs(args[0])
        if op=='copysign':
            c=D.signbit(args[1]); a=D.abs(args[0]); return D.ite(c,D.neg(a),a)
        if n.startswith('is.fpclass'): 
            r=D.fpclass(args[0],args[1]); 
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if op=='threadlocal': return args[0]
        if op in('lifetime','dbg','donothing','assume','stackrestore','experimental'): return None
        if op=='stacksave': return NULL
        if op in('memcpy','memmove'): self.memcpy(args[0],args[1],self.concretize(args[2])); return None
        if op=='memset':
            n_=self.concretize(args[2])
            ob=self.objs[args[0].o]
            for j in range(n_): self.store(Ptr(args[0].o,args[0].off+j),args[1],self.i8())
            return None
        if op=='minnum': return self.minmax(args,'olt')
        if op=='maxnum': return self.minmax(args,'ogt')
        if op in('floor',): return D.rint('dn',args[0])
        if op in('ceil',): return D.rint('up',args[0])
        if op in('trunc',): return D.rint('rz',args[0])
        if op in('rint','nearbyint'): return D.rint(self.rm(),args[0])
        if op=='sqrt': return D.sqrt(self.rm(),args[0])
        if n.startswith('eh.typeid.for'):
            t=args[0]
            for nm,p in self.gobj.items():
                if p.o==t.o: return self.typeid(nm)
            return 0
        if op in('trap','ubsantrap'): raise Abort(name)
        if op in('umin','umax','smin','smax','abs'):
            w=int(n.split('.')[-1][1:]); x=self.tobv(args[0],w)
            if op=='abs': r=z3.If(x<0,-x,x)
            else:
                y=self.tobv(args[1],w)
                r={'umin':z3.If(z3.ULT(x,y),x,y),'umax':z3.If(z3.UGT(x,y),x,y),'smin':z3.If(x<y,x,y),'smax':z3.If(x>y,x,y)}[op]
            r=z3.simplify(r); return r.as_long() if z3.is_bv_value(r) else r
        if op in('fshl','fshr'):
            w=int(n.split('.')[-1][1:]); x,y,k=(self.tobv(a,w) for a in args); k=z3.ZeroExt(w,z3.URem(k,z3.BitVecVal(w,w)))
            r=z3.Extract(2*w-1,w,z3.Concat(x,y)<<k) if op=='fshl' else z3.Extract(w-1,0,z3.LShR(z3.Concat(x,y),k))
            r=z3.simplify(r); return r.as_long() if z3.is_bv_value(r) else r
        if op in('expect','ssa'): return args[0]
        if n.startswith(('sadd.with','ssub.with','smul.with','uadd.with','usub.with','umul.with')):
            w=int(n.split('.')[-1][1:]); x,y=self.tobv(args[0],w),self.tobv(args[1],w)
            o=n[1:4]; sg=n[0]=='s'
            W=2*w
            ex=(z3.SignExt if sg else z3.ZeroExt)
            X,Y=ex(w,x),ex(w,y); R={'add':X+Y,'sub':X-Y,'mul':X*Y}[o]
            r=z3.Extract(w-1,0,R); ov=z3.Not(ex(w,r)==R)
            r=z3.simplify(r); ov=z3.simplify(ov)
            return [r.as_long() if z3.is_bv_value(r) else r, 1 if z3.is_true(ov) else 0 if z3.is_false(ov) else ov]
        raise Unsupported('intrinsic '+name)
    SUF={'f32':'float','f64':'double','f80':'x86_fp80','f128':'fp128','f16':'half'}
    def fpsuffix(self,name):
        p=name.split('.'); return self.SUF[p[-1]],self.SUF[p[-2]]
