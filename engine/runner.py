"""Task runner: symbolic exploration, solver queries, native replay, cross-validation, evidence."""
import copy, re, sys, os, time, json, subprocess, tempfile, shutil, random, importlib, traceback, ctypes, pickle, signal, struct, hashlib
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from fractions import Fraction as F
import z3, llvmir, symex, conc, logic
from domains import *
from ordd import Ord
from cong import Cong
from logic import And, Or, Not
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
OUT=os.environ.get('VERIF_OUT') or None
MODES=[0,0x400,0x800,0xc00]

def mkty(k,n=None,store=None,size=None):
    t=llvmir.Ty(); t.k=k; t.n=n; t.elts=t.offs=t.fields=None; t.store=store; t.size=size or store; return t
TY={'float':mkty('float',None,4),'double':mkty('double',None,8),'x86_fp80':mkty('x86_fp80',None,10,16),
    'i8':mkty('int',8,1),'i32':mkty('int',32,4),'i64':mkty('int',64,8),'u32':mkty('int',32,4),'u64':mkty('int',64,8),'i16':mkty('int',16,2)}
FPS=('float','double','x86_fp80')
CNAME={'float':'float','double':'double','x86_fp80':'ldouble'}

class NS:
    def __init__(self_,**k): self_.__dict__.update(k)
    def __getitem__(self_,k): return self_.__dict__[k]

class Task:
    """One harness function, its inputs, precondition and postcondition.
    ins/outs: list of (name,type) occupying consecutive 16-byte slots.  post(D,i,o) -> formula that must hold."""
    def __init__(self,name,fn,ins,outs,pre,post,domain='ord',fmt=None,entry='sym',ext=None,max_paths=3000,budget=None,solver_ms=20000,
                 consts=None,loopbound=None,ccheck=True,mkdomain=None,weight=1,throws=False,max_depth=60,gen=None,opts=None,lemmas=None,note=None,vectors=24,conc_ok=None,asm=None,path_ms=None):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.consts=consts or {}
        self.opts=opts or {}

def make_domain(t):
    if t.mkdomain: return t.mkdomain(t)
    if t.domain=='ord': return Ord()
    if t.domain in('cong','bits'): return Cong()
    if t.domain=='exact': return Exact()
    if t.domain=='tiny': return Exact(t.fmt)
    if t.domain=='real': return Real()
    raise ValueError(t.domain)

# ------------------------------------------------------------------------------------------ build
CXX=['-std=c++17','-frounding-math','-I'+os.path.join(VERIF,'harness'),'-I'+REPO+'/include']
def compile_asm_harness(src,work,asm):
    """a harness whose library code contains machine instructions that touch the control register: each is rewritten, in the IR,
    to a call of the harness function that models it; the compiled code for replay is made from the same IR"""
    base=os.path.join(work,os.path.splitext(os.path.basename(src))[0])
    def run(*a):
        p=subprocess.run(a,capture_output=True,text=True)
        if p.returncode: raise RuntimeError('compilation failed: '+' '.join(a[:3])+'\n'+p.stderr[-3000:])
    run('clang++-18','-E','-w',*CXX,src,'-o',base+'.ii')
    s=open(base+'.ii').read()
    s=re.sub(r'"(=?&?)f" ?\(',r'"\1x"(',s)            # register class f of the other machine: any floating-point register
    open(base+'.ii','w').write(s)
    run('clang++-18','-O0','-fPIC','-S','-emit-llvm','-w','-Wno-narrowing','-Wno-c++11-narrowing','-std=c++17','-frounding-math','-Xclang','-disable-O0-optnone',base+'.ii','-o',base+'.ll')
    if 'msvc' in base: run('/usr/lib/llvm-18/bin/opt','-S','-passes=function(sroa,simplifycfg<bonus-inst-threshold=8;switch-to-lookup>,sroa)',base+'.ll','-o',base+'.ll')    # bit tests become selections
    def call(m):
        t=' '.join(m.group(2).replace('\\09',' ').replace('\\0A',' ').split()); f=asm.get(t)
        if f is None: return m.group(0)
        return 'call %s @%s(%s)'%(m.group(1),f.replace('*',m.group(1)),re.sub(r'elementtype\([^)]*\) ','',m.group(3)))
    s=open(base+'.ll').read()
    s=re.sub(r'call (\S+) asm (?:sideeffect )?(?:alignstack )?"([^"]*)", "[^"]*"\((.*?)\)(?= #|,|\n)(?: #\d+)?(?:, !srcloc !\d+)?',call,s)
    open(base+'.ll','w').write(s)
    inc=os.path.join(VERIF,'harness','replay_main.inc')
    wrap=['-Wl,--wrap=%s%s'%(f,x) for f in sorted(symex.Executor.MATH1) for x in('','f','l')]
    run('g++','-O0','-c','-fPIC','-w','-x','c++',inc,'-o',base+'.o')
    run('clang++-18','-O0','-shared','-fPIC','-w',*wrap,base+'.ll',base+'.o','-o',base+'.so')
    return base+'.ll',base+'.so'
def preemption_points(s):
    """calls verif_point() before every instruction that names a variable of the library which all threads share (neither constant
    nor thread-local), and verif_hold() around the initialisation of static variables, which other threads wait for"""
    shared={m.group(1) for m in re.finditer(r'^@("[^"]*"|[\w.$]+) = (.*)$',s,re.M) if re.search(r'\bglobal\b',m.group(2).split('!')[0]) and 'thread_local' not in m.group(2) and 'boost' in m.group(1) and not m.group(1).strip('"').startswith('_ZGV') and 'external' not in m.group(2).split('global')[0]}
    out=[]; n=0; infn=False
    for l in s.split('\n'):
        if l.startswith('define '): infn=True
        elif l.startswith('}'): infn=False
        t=l.strip()
        if infn and l.startswith(' '):
            named=shared and any(x in shared for x in re.findall(r'@("[^"]*"|[\w.$]+)',l))
            if named and ' phi ' not in l and not t.startswith(('landingpad','catch','filter','cleanup','to label')):
                out.append('  call void @verif_point()'); n+=1
            out.append(l)
            m=re.match(r'\s*(%[\w.]+) = (?:tail )?call i32 @__cxa_guard_acquire\(',l)
            if m: out.append('  call void @verif_hold(i32 %s)'%m.group(1))
            if re.match(r'\s*call void @__cxa_guard_(release|abort)\(',l): out.append('  call void @verif_hold(i32 -1)')
        else: out.append(l)
    return '\n'.join(out),sorted(shared),n
def compile_threads_harness(src,work):
    base=os.path.join(work,os.path.splitext(os.path.basename(src))[0])
    def run(*a):
        p=subprocess.run(a,capture_output=True,text=True)
        if p.returncode: raise RuntimeError('compilation failed: '+' '.join(a[:3])+'\n'+p.stderr[-3000:])
    run('clang++-18','-O0','-fPIC','-S','-emit-llvm','-Wno-everything',*CXX,src,'-o',base+'.ll')
    s,shared,n=preemption_points(open(base+'.ll').read()); open(base+'.ll','w').write(s)
    if n: print('  shared variables: %s (%d places where another thread may run)'%(', '.join(shared)[:300],n))
    inc=os.path.join(VERIF,'harness','replay_main.inc')
    wrap=['-Wl,--wrap=%s%s'%(f,x) for f in sorted(symex.Executor.MATH1) for x in('','f','l')]
    run('g++','-O0','-c','-fPIC','-w','-x','c++',inc,'-o',base+'.o')
    run('clang++-18','-O0','-shared','-fPIC','-w',*wrap,base+'.ll',base+'.o','-o',base+'.so')
    return base+'.ll',base+'.so'
def compile_harness(src,work,native=True,nflags=[],asm=None,cxx='g++'):
    if asm=='threads': return compile_threads_harness(src,work)
    if asm is not None: return compile_asm_harness(src,work,asm)
    base=os.path.join(work,os.path.splitext(os.path.basename(src))[0])
    ps=[subprocess.Popen(['clang++-18','-O0','-S','-emit-llvm','-Wno-everything']+CXX+[src,'-o',base+'.ll'],stderr=subprocess.PIPE,text=True)]
    if native:
        wrap=[]
        for f in sorted(symex.Executor.MATH1):
            for s in ('','f','l'): wrap.append('-Wl,--wrap='+f+s)
        ps.append(subprocess.Popen([cxx,'-O0','-shared','-fPIC','-w','-fno-builtin','-fno-strict-aliasing','-DVERIF_NATIVE']+list(nflags)+CXX+['-include',os.path.join(VERIF,'harness','replay_main.inc')]+wrap+[src,'-o',base+'.so'],stderr=subprocess.PIPE,text=True))
    for p in ps:
        err=p.communicate()[1]
        if p.returncode: raise RuntimeError('compilation failed: '+' '.join(p.args[:3])+'\n'+err[-3000:])
    return base+'.ll',base+'.so'

# ------------------------------------------------------------------------------------------ native
CB=ctypes.CFUNCTYPE(None,ctypes.c_int,ctypes.c_int,ctypes.c_int,ctypes.c_void_p,ctypes.c_void_p)
LIBNAMES=sorted(symex.Executor.MATH1)
def _callback(fid,mode,ty,pin,pout):
    k=('float','double','x86_fp80')[ty]; n={'float':4,'double':8,'x86_fp80':10}[k]
    left=signal.setitimer(signal.ITIMER_VIRTUAL,0)[0]        # the reference function is not on the clock of the code
    C=conc.Conc(); a=C.decode(ctypes.string_at(pin,n),k)
    r=LIBM_IMPL(LIBNAMES[fid],symex.FE[mode],a,k)
    ctypes.memmove(pout,C.encode(r,k),n)
    if left: signal.setitimer(signal.ITIMER_VIRTUAL,left)
def LIBM_IMPL(name,rm,a,k): return conc.libm_cr(name,rm,a,*FPSORT[k])
class Native:
    def __init__(self,so): self.so=so
    def run(self,task,vectors,timeout=20):
        """vectors: list of (mode, [values]) -> list of outcome dicts (None where not run)"""
        C=conc.Conc(); out=[]; start=0
        while start<len(vectors):
            r,w=os.pipe(); pid=os.fork()
            if pid==0:
                try:
                    os.close(r); signal.signal(signal.SIGALRM,signal.SIG_DFL); signal.signal(signal.SIGVTALRM,signal.SIG_DFL)
                    signal.setitimer(signal.ITIMER_REAL,30*timeout); self.cpu=timeout      # timeout: processor seconds of one vector
                    sys.setrecursionlimit(10000)
                    import resource; resource.setrlimit(resource.RLIMIT_STACK,(64<<20,64<<20)); resource.setrlimit(resource.RLIMIT_CORE,(0,0))
                    self._child(task,vectors[start:],w,C)
                except BaseException as e:
                    os.write(2,(repr(e)+'\n').encode())
                    os._exit(3)
                os._exit(0)
            os.close(w); data=b''
            while True:
                b=os.read(r,65536)
                if not b: break
                data+=b
            os.close(r); _,st=os.waitpid(pid,0)
            n=0
            import io
            f=io.BytesIO(data)
            while True:
                try: res=pickle.load(f)
                except Exception: break
                out.append(res); n+=1
            start+=n
            if start<len(vectors):
                if os.WIFEXITED(st) and os.WEXITSTATUS(st)==3: raise RuntimeError('native runner failed')
                sig=os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                if sig==signal.SIGALRM: out+=[None]*(len(vectors)-start); break       # a machine too busy to tell
                out.append({'kind':'abort','tname':'timeout' if sig==signal.SIGVTALRM else 'signal %d'%sig,'mode':None,'outs':None,'raw':None}); start+=1
                if sum(1 for o in out if o and o['kind']=='abort')>3:
                    out+=[None]*(len(vectors)-start); break
        return out
    def _child(self,task,vectors,w,C):
        lib=ctypes.CDLL(self.so)
        cb=CB(_callback); ctypes.c_void_p.in_dll(lib,'verif_libm_cb').value=ctypes.cast(cb,ctypes.c_void_p).value
        h=ctypes.cast(getattr(lib,task.fn),ctypes.c_void_p)
        lib.verif_run.argtypes=[ctypes.c_void_p,ctypes.c_char_p,ctypes.c_char_p,ctypes.c_int,ctypes.POINTER(ctypes.c_int),ctypes.c_char_p]
        for mode,vals in vectors:
            inb=ctypes.create_string_buffer(encode_ins(task,vals,C),16*len(task.ins)+16); outb=ctypes.create_string_buffer(b'\xAA'*(16*max(1,len(task.outs))+4096))
            em=ctypes.c_int(0); exc=ctypes.create_string_buffer(256)
            signal.setitimer(signal.ITIMER_VIRTUAL,self.cpu)
            r=lib.verif_run(h,inb,outb,mode,ctypes.byref(em),exc)
            signal.setitimer(signal.ITIMER_VIRTUAL,0)
            raw=bytes(outb.raw[:16*len(task.outs)])
            d={'kind':'throw' if r else 'ret','tname':exc.value.decode() if r else None,'mode':em.value,'outs':None if r else decode_outs(task,raw,C),'raw':raw}
            if task.opts.get('strout'): d['str']=outb.raw[16*len(task.outs):].split(b'\xAA')[0]
            b=pickle.dumps(d); 
            while b: b=b[os.write(w,b):]
def encode_ins(task,vals,C):
    b=bytearray(16*len(task.ins)+16)
    for j,((n,t),v) in enumerate(zip(task.ins,vals)):
        if t in FPS: e=C.encode(v,t)
        else: e=(v&((1<<TY[t].n)-1)).to_bytes(TY[t].store,'little')
        b[16*j:16*j+len(e)]=e
    return bytes(b)
def decode_outs(task,raw,C):
    o=[]
    for j,(n,t) in enumerate(task.outs):
        b=raw[16*j:16*j+TY[t].store]
        o.append(C.decode(b,t) if t in FPS else sgn_int(int.from_bytes(b,'little'),t))
    return o
def sgn_int(v,t):
    if not isinstance(v,int): return v
    n=TY[t].n; v&=(1<<n)-1
    if t[0]=='i' and n>8 and v>>(n-1): v-=1<<n
    return v

# ------------------------------------------------------------------------------------------ concrete judging
def tnorm(n):
    if n is None: return None
    return n[4:] if n.startswith('_ZTI') else n
def judge(task,mode,vals,res):
    """-> (pre holds, post holds) on a native result"""
    C=conc.Conc(); C.curk=next((t for n,t in task.ins if t in FPS),'double')
    C.mode=mode
    i=NS(**{n:(v if t in FPS else sgn_int(v,t)) for (n,t),v in zip(task.ins,vals)}); i.entry=mode
    if not truth(task.pre(C,i)): return (False,None)
    o=NS(kind=res['kind'],tname=tnorm(res['tname']),mode=res['mode'],entry=mode,events=res.get('str'),ub=[],apps=[])
    if res['kind']=='ret':
        for (n,t),v in zip(task.outs,res['outs']): setattr(o,n,v)
    return (True,truth(task.post(C,i,o)))
def truth(x):
    if isinstance(x,int): return bool(x)
    x=z3.simplify(x)
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    raise RuntimeError('specification not concrete: %s'%x)

# ------------------------------------------------------------------------------------------ vectors
def fmt_of(t): return FPSORT[t]
def rnd_mag(rng,t,style):
    eb,sb=FPSORT[t]; emax=2**(eb-1)-1
    if style=='mid': e=rng.randint(-4,6)
    elif style=='int': return F(rng.randint(1,12))
    elif style=='big': e=rng.randint(emax-3,emax)
    elif style=='bigh': e=rng.randint(emax//2-3,emax//2+3)
    elif style=='small': e=rng.randint(1-emax-sb+1,1-emax+2)
    elif style=='smallh': e=rng.randint(-emax//2-6,-emax//2+3)
    else: e=rng.randint(2-emax,emax-1)
    m=F(rng.getrandbits(sb-1)|(1<<(sb-1)))*F(2)**(e-(sb-1))
    r=conc.rnd(m,'dn',eb,sb)
    return r if not isinstance(r,str) and r>0 else F(2)**(1-emax-(sb-1))
def special(rng,t):
    eb,sb=FPSORT[t]; emax=2**(eb-1)-1
    mx=(2-F(2)**(1-sb))*F(2)**emax; mn=F(2)**(1-emax-(sb-1))
    v=rng.choice([F(0),F(0),F(1),F(2),F(3),F(1,2),'inf','-0',mx,mn,F(2)**emax,F(2)**(1-emax)])
    if rng.random()<.5: v=conc.neg(v)
    return v
def rand_vec(rng,task):
    style=rng.choice(['mid','mid','int','big','small','any','bigh','smallh'])
    out=[]; prev=None
    for n,t in task.ins:
        if t in FPS:
            r=rng.random()
            if n in task.consts: v=rng.choice(task.consts[n])
            elif r<.25: v=special(rng,t)
            elif r<.3 and prev is not None: v=prev
            elif r<.32: v='nan'
            else:
                v=rnd_mag(rng,t,style)
                if rng.random()<.5: v=-v
            if prev is not None and n.endswith('u') and t in FPS and conc.lt(v,prev) and rng.random()<.95: out[-1],v=v,prev
            out.append(v); prev=v
        else:
            if n in task.consts: out.append(rng.choice(task.consts[n]))
            else:
                w=TY[t].n; out.append(rng.choice([0,1,2,3,5,-1,-2,-7,(1<<(w-1))-1,-(1<<(w-1)),rng.getrandbits(w),rng.getrandbits(w//2)])&((1<<w)-1))
                if n.endswith('u') and len(out)>1 and task.ins[len(out)-2][1]==t and t[0]=='i' and sgn_int(out[-1],t)<sgn_int(out[-2],t) and rng.random()<.9: out[-2:]=[out[-1],out[-2]]
    return out
def fix_vec(task,vals):
    """make every number representable in its slot type"""
    out=[]
    for (n,t),v in zip(task.ins,vals):
        if t in FPS and conc.isnum(v): v=conc.rnd(conc.val(v),'ne',*FPSORT[t],zsign=conc.sgn(v))
        out.append(v)
    return out
def shape_vec(rng,task,vals,keepconst):
    """keep signs, classes, ties and order of a model, change the magnitudes"""
    idx=[j for j,((n,t),v) in enumerate(zip(task.ins,vals)) if t in FPS and conc.isnum(v) and conc.val(v)!=0]
    mags=sorted({abs(vals[j]) for j in idx})
    if not mags: return list(vals)
    t0=min((task.ins[j][1] for j in idx),key=lambda t:FPSORT[t][0])
    style=rng.choice(['mid','mid','mid','int','big','small','any','bigh','smallh'])
    keep=[m for m in mags if keepconst and m in(1,2,3)]
    new=[]
    styles=[style]*len(mags) if rng.random()<.7 else [rng.choice(['mid','big','small','any','int','bigh','smallh']) for _ in mags]
    pool=set()
    for _ in range(200):
        pool=sorted({rnd_mag(rng,t0,s) for s in styles})
        if len(pool)>=len(mags): break
    if len(pool)<len(mags): return list(vals)
    mp=dict(zip(mags,sorted(pool)[:len(mags)]))
    if keep:
        lo=sorted(rnd_mag(rng,t0,'mid') for _ in range(50))
        for m in mags:
            if m in keep: mp[m]=m
            else:
                k=keep[0]
                c=[x for x in lo if (x<k)==(m<k) and x!=k]
                if c: mp[m]=c[rng.randrange(len(c))]
    out=list(vals)
    for j in idx: out[j]=mp[abs(vals[j])]*(1 if vals[j]>0 else -1)
    for j,(n,ty) in enumerate(task.ins):
        if ty not in FPS and rng.random()<.5: # integers: another value of the same sign
            w=TY[ty].n; v=vals[j]; neg=ty[0]=='i' and v>>(w-1)&1
            x=rng.choice([rng.getrandbits(rng.randint(1,w-1)),(1<<(w-1))-1,1,3]) if v&((1<<w)-1) else 0
            out[j]=(-x if neg else x)&((1<<w)-1)
    return fix_vec(task,out)
def vec_json(task,mode,vals):
    def s(v,t):
        if t not in FPS: return sgn_int(v,t)
        if isinstance(v,str): return v
        return float(v).hex() if t!='x86_fp80' and abs(v)<F(2)**1024 and (v==F(float(v))) else str(v)
    d={n:s(v,t) for (n,t),v in zip(task.ins,vals)}
    d['rounding_mode_on_entry']=symex.FE[mode]
    return d
def out_json(task,res):
    if res is None: return None
    d={'kind':res['kind'],'exception':res['tname'],'mode_on_exit':None if res['mode'] is None else symex.FE.get(res['mode'],str(res['mode']))}
    if res['outs'] is not None:
        for (n,t),v in zip(task.outs,res['outs']):
            d[n]=v if isinstance(v,(str,int)) else (float(v) if abs(v)<F(2)**1024 else str(v))
    if res.get('str'): d['text']=res['str'].decode('latin1')
    return d

# ------------------------------------------------------------------------------------------ one task
def setup_args(task,D,ex,values=None,mode=None):
    inp=ex.alloc(16*len(task.ins)+16,'in'); out=ex.alloc(16*max(1,len(task.outs))+4096,'out')
    ex.inp=inp; ex.out=out
    i=NS()
    for j,(n,t) in enumerate(task.ins):
        if values is not None: v=values[j] if t in FPS else values[j]&((1<<TY[t].n)-1)
        elif t in FPS: v=D.fresh(t,n)
        else: v=z3.BitVec(n,TY[t].n)
        ex.store(symex.Ptr(inp.o,16*j),v,TY[t]); setattr(i,n,v)
    ex.i=i
    e=task.entry if mode is None else mode
    if e=='sym':
        ex.mode=z3.BitVec('entry_mode',32); ex.assume(z3.Or([ex.mode==m for m in MODES]))
    else: ex.mode=e
    i.entry=ex.mode
    if values is None:
        ex.assume(tob(task.pre(D,i)))
    return [inp,out]
def tob(x):
    if isinstance(x,bool): return x
    if isinstance(x,int): return bool(x)
    return x
def outcome_ns(task,ex,o):
    n=NS(kind=o.kind,tname=tnorm(o.tname),mode=o.mode,entry=ex.i.entry,events=o.events,ub=o.ub,apps=o.apps,ex=ex)
    if o.kind=='ret':
        for j,(nm,t) in enumerate(task.outs):
            v=ex.load(symex.Ptr(ex.out.o,16*j),TY[t])
            setattr(n,nm,v if t in FPS else sgn_int(v,t))
    return n

def run_task(task,module,so,seed,tier,deadline):
    r={'task':task.name,'fn':task.fn,'paths':0,'ret_paths':0,'queries':0,'proved':0,'unproved':[],'steps':0,'solver_s':0.0,'xval':0,'violations':[],'notes':[],'functions':[],'samples':[],'spec_checked':0,'domain':None}
    t0=time.time()
    rng=random.Random('%s/%s'%(seed,task.name))
    nat=Native(so) if so else None
    try:
        if task.domain=='cong':
            task.fall='no'; _run_task(task,module,None,rng,tier,deadline,r)
            if r['unproved'] or r['violations']:      # undecided by congruence alone: the order domain gives values
                why=r['unproved'][:1]; task=copy.copy(task); task.domain='ord'
                for key in('paths','ret_paths','proved'): r[key]=0
                r['unproved']=[]
                _run_task(task,module,nat,rng,tier,deadline,r)
            elif nat is not None: xvalidate(task,module,nat,rng,[],r,tier)
        else: _run_task(task,module,nat,rng,tier,deadline,r)
    except Unsupported as e: r['notes'].append('unsupported: %s'%e); r['unproved'].append('exploration stopped: %s'%e)
    except Exception as e: r['notes'].append('error: '+traceback.format_exc()[-1500:]); r['unproved'].append('internal error: %r'%e)
    r['wall']=time.time()-t0
    return r

def _run_task(task,module,nat,rng,tier,deadline,r):
    D=make_domain(task); r['domain']=task.domain if task.domain!='tiny' else 'exact IEEE semantics in the formats %s'%json.dumps(task.fmt)
    budget=task.budget or (60 if tier=='quick' else 400)
    ex=symex.Executor(module,D,max_paths=task.max_paths,timeout=min(budget,max(5,deadline-time.time())),solver_ms=task.solver_ms,ext=task.ext,max_depth=task.max_depth)
    ex.loopbound=task.loopbound; ex.recbound=task.opts.get('recbound'); ex.feas_ms=task.opts.get('feas_ms')
    vectors=[]; failures=[]
    for o in ex.explore(task.fn,lambda e:setup_args(task,D,e)):
        r['paths']+=1
        if o.kind=='bound':
            if task.opts.get('cut'): r['cut']=r.get('cut',0)+1; continue
            r['unproved'].append('path cut: %s'%o.tname); 
            continue
        if o.kind=='ret': r['ret_paths']+=1
        on=outcome_ns(task,ex,o)
        if task.lemmas: D.cons+=[c for c in task.lemmas(D,ex.i,on) if c is not True]
        post=task.post(D,ex.i,on)
        npost=Not(tob(post))
        # one concrete witness per path (reachability of the path and a vector for cross-validation)
        if len(vectors)<(40 if tier=='quick' else 120) and r['paths']%max(1,r['paths']//30)==0 and task.domain in('ord',):
            if ex.check([],model=True)==z3.sat: vectors.append(concretise_model(task,D,ex,ex.model,rng))
        if npost is False: r['proved']+=1; continue
        if npost is True and task.domain=='cong': r['unproved'].append('congruence is not enough on path %d'%r['paths']); break
        res=ex.check([npost],model=True)
        if res==z3.unsat:
            r['proved']+=1
            if len(r['samples'])<1:
                r['samples'].append({'task':task.name,'path_condition':[str(z3.simplify(c))[:160] for c in o.conds[-6:] if z3.is_expr(c)],'outcome':o.kind,'verdict':'negated property unsat'})
            continue
        if res==z3.unknown:
            r['unproved'].append('solver gave no answer on path %d'%r['paths']); continue
        if task.domain=='cong': r['unproved'].append('congruence is not enough on path %d'%r['paths']); break
        model=ex.model
        v=replay(task,module,D,ex,o,model,npost,nat,rng,tier,deadline,r)
        if v: r['violations'].append(v); break
        r['unproved'].append('path %d: counterexample of the abstraction did not reproduce on the real code'%r['paths'])
        if len(r['unproved'])>6: r['notes'].append('stopped after 6 unreproduced counterexamples'); break
    if ex.incomplete and not (task.opts.get('cut')=='budget' and r['proved']): r['unproved'].append('exploration incomplete: '+ex.incomplete)
    r['states']=sorted(g for g in ex.gwritten if 'boost' in g)
    if r['states'] and not r['violations'] and nat is not None and task.domain!='cong': history(task,module,nat,rng,tier,deadline,r)
    r['queries']+=ex.queries; r['solver_s']+=ex.qtime; r['steps']=ex.steps_total; r['functions']=sorted(ex.functions)
    if not r['violations'] and nat is not None: xvalidate(task,module,nat,rng,vectors,r,tier)

def history(task,module,nat,rng,tier,deadline,r):
    """the library keeps state between calls: the property must also hold for a call that follows any other one"""
    D=make_domain(task); fn=module.funcs[task.fn]; ms=task.solver_ms
    ex=symex.Executor(module,D,max_paths=task.max_paths,timeout=min(task.budget or (60 if tier=='quick' else 400),max(5,deadline-time.time())),solver_ms=ms,ext=task.ext,max_depth=task.max_depth)
    ex.loopbound=task.loopbound; ex.recbound=task.opts.get('recbound'); ex.feas_ms=task.opts.get('feas_ms')
    def setup(ex):
        inp,out=ex.alloc(16*len(task.ins)+16,'in'),ex.alloc(16*max(1,len(task.outs))+4096,'out'); i=NS()
        for j,(n,t) in enumerate(task.ins):
            v=D.fresh(t,'first!'+n) if t in FPS else z3.BitVec('first!'+n,TY[t].n)
            ex.store(symex.Ptr(inp.o,16*j),v,TY[t]); setattr(i,n,v)
        if task.entry=='sym':
            ex.mode=z3.BitVec('first_mode',32); ex.assume(z3.Or([ex.mode==m for m in MODES]))
        else: ex.mode=task.entry
        i.entry=ex.mode; ex.first=i; ex.inp,ex.out=inp,out; ex.i=i; ex.assume(tob(task.pre(D,i)))
        try: ex.call(fn,[inp,out])
        except symex.Throw: ex.exc=None
        except symex.Abort: raise symex.PathEnd()
        ex.events=[]; ex.ub=[]; ex.depth=0; ex.loopcount={}; ex.active_calls={}
        return setup_args(task,D,ex)
    n=0; miss=0
    try:
        for o in ex.explore(task.fn,setup):
            if o.kind=='bound': continue
            n+=1; on=outcome_ns(task,ex,o)
            if task.lemmas: D.cons+=[c for c in task.lemmas(D,ex.i,on) if c is not True]
            np=Not(tob(task.post(D,ex.i,on)))
            if np is False or ex.check([np],model=True)!=z3.sat: continue
            t2=copy.copy(task); t2.ins=[('first!'+a,t) for a,t in task.ins]+list(task.ins); k=len(task.ins); cands=[]; bases=[]
            for _ in range(4):
                m1,v1=concretise_model(task,D,ex,ex.model,rng,ex.first,'first!'); m2,v2=concretise_model(task,D,ex,ex.model,rng); bases.append((m1,m2,v1+v2)); model=ex.model
                fpn=[x for i in(ex.first,ex.i) for x in(i[nm] for nm,t in task.ins if t in FPS) if D.name=='ord' and x.c is None]
                extra=[x.v!=model.eval(x.v,model_completion=True) for x in rng.sample(fpn,min(2,len(fpn)))]
                if not extra or ex.check([np]+extra,model=True)!=z3.sat: break
            for b in bases: cands.append((b[0],b[1],fix_vec(t2,b[2])))
            if D.name in('ord','real'):
                for _ in range(150):
                    b=rng.choice(bases)
                    try: cands.append((b[0],b[1],shape_vec(rng,t2,b[2],rng.random()<.3)))
                    except Exception: pass
            for m1,m2,vs in cands:
                p1,p2=(m1,vs[:k]),(m2,vs[k:])
                try:
                    if not all(pre_holds(task,*p) for p in(p1,p2)): continue
                except Unsupported: continue
                res=nat.run(task,[p1,p2])
                if len(res)<2 or res[1] is None: continue
                p,q=judge(task,*p2,res[1])
                if p and not q:
                    r['violations'].append({'task':task.name,'fn':task.fn,'inputs':dict(vec_json(task,*p2),after=vec_json(task,*p1)),'observed':out_json(task,res[1]),'in_hex':encode_ins(task,p2[1],conc.Conc()).hex(),'mode':m2,
                        'first_hex':encode_ins(task,p1[1],conc.Conc()).hex(),'first_mode':m1,'origin':'solver counterexample: a call after another one'}); return
            miss+=1
            if miss>6: break
    except Unsupported as e: r['notes'].append('history: %s'%e)
    finally:
        if miss or ex.incomplete: r['notes'].append('state kept between calls (%s): %d paths of two calls, %d counterexamples not reproduced%s'%(', '.join(r['states'])[:200],n,miss,'; incomplete' if ex.incomplete else ''))
        r['queries']+=ex.queries; r['solver_s']+=ex.qtime
def pre_holds(task,m,vs):
    C=conc.Conc(); C.curk=next((t for n,t in task.ins if t in FPS),'double'); C.mode=m
    i=NS(**{n:(v if t in FPS else sgn_int(v,t)) for (n,t),v in zip(task.ins,vs)}); i.entry=m
    return truth(task.pre(C,i))

def concretise_model(task,D,ex,model,rng,i=None,pre=''):
    vals=[]; i=i or ex.i
    for n,t in task.ins:
        v=i[n]; n=pre+n
        if t in FPS:
            if D.name=='ord': x=D.model_value(model,v)
            elif D.name=='cong': x=rng.choice([F(1),F(3,2),F(1,3),F(-5,7)])      # terms have no values: any number will do
            elif D.name=='real':
                q=model.eval(v,model_completion=True)
                x=q.as_fraction() if z3.is_rational_value(q) else q.approx(30).as_fraction()
            else: x=fp_to_py(model.eval(v,model_completion=True))
            vals.append(x)
        else:
            if D.name=='ord' and n in D.ints: vals.append(model.eval(D.ints[n],model_completion=True).as_long()&((1<<TY[t].n)-1))
            else: vals.append(v if isinstance(v,int) else model.eval(v,model_completion=True).as_long())
    m=i.entry
    if not isinstance(m,int): m=model.eval(m,model_completion=True).as_long()
    return (m,vals)

def lifts(task,vals,rng):
    """native inputs that mimic a counterexample found in small formats"""
    out=[fix_vec(task,vals)]
    fm=task.fmt
    for pos in ('top','bottom'):
        w=[]
        for (n,t),v in zip(task.ins,vals):
            if t not in FPS or not conc.isnum(v) or conc.val(v)==0 or n in task.consts: w.append(v); continue
            eb,sb=fm[t]; EB,SB=FPSORT[t]
            sh=((2**(EB-1)-1)-(2**(eb-1)-1)) if pos=='top' else (2-2**(EB-1)-(SB-1))-(2-2**(eb-1)-(sb-1))
            x=v*F(2)**sh
            w.append(x)
        out.append(fix_vec(task,w))
        # extend an all-ones significand to the native width
        w2=[]
        for (n,t),v,x in zip(task.ins,vals,w):
            if t in FPS and conc.isnum(v) and conc.val(v)!=0 and n not in task.consts and not isinstance(x,str):
                eb,sb=fm[t]; EB,SB=FPSORT[t]; e=conc.ilog2(abs(x)); m=abs(x)/F(2)**(e-(sb-1))
                if m==2**sb-1: x=(1 if x>0 else -1)*(2-F(2)**(1-SB))*F(2)**e
            w2.append(x)
        out.append(fix_vec(task,w2))
    return out

def replay(task,module,D,ex,o,model,npost,nat,rng,tier,deadline,r):
    """turn a counterexample of the encoding into a failing execution of the compiled code"""
    if nat is None: return None
    base=concretise_model(task,D,ex,model,rng); mode,vals=base
    cands=[]
    def add(vs,m=None):
        try: cands.append((mode if m is None else m,fix_vec(task,vs)))
        except Exception: pass
    if D.name=='ord' or D.name=='real':
        add(vals)
        bases=[vals]
        for k in range(3 if tier=='quick' else 8):
            # further models of the same path
            extra=[]
            fpn=[ex.i[n] for n,t in task.ins if t in FPS and (D.name=='real' or ex.i[n].c is None)]
            if fpn:
                for x in rng.sample(fpn,min(2,len(fpn))):
                    xv=x if D.name=='real' else x.v
                    q=model.eval(xv,model_completion=True); extra.append(xv!=q)
            if ex.check([npost]+extra,model=True)!=z3.sat: break
            model=ex.model
            m2,v2=concretise_model(task,D,ex,model,rng); bases.append(v2)
        for _ in range(600 if tier=='quick' else 3000):
            b=rng.choice(bases); add(shape_vec(rng,task,b,rng.random()<.3))
    elif task.domain=='tiny':
        for l in lifts(task,vals,rng): add(l)
        for _ in range(800): add(shape_vec(rng,task,vals,rng.random()<.3))
    elif D.name=='cong':
        for _ in range(300):
            rv=rand_vec(rng,task); add([a if t in FPS else b for (n,t),a,b in zip(task.ins,rv,vals)])
    else: add(vals)
    v=try_native(task,nat,cands,r)
    if v: return v
    if D.name in('ord',) and not task.opts.get('noexact'):
        # bit-precise query along the same path
        v=exact_path(task,module,ex,o,nat,r,tier)
    return v
def try_native(task,nat,cands,r,origin='solver counterexample'):
    ok=[]
    for m,vs in cands:
        try:
            C=conc.Conc(); C.curk=next((t for n,t in task.ins if t in FPS),'double'); C.mode=m
            i=NS(**{n:(v if t in FPS else sgn_int(v,t)) for (n,t),v in zip(task.ins,vs)}); i.entry=m
            if truth(task.pre(C,i)): ok.append((m,vs))
        except Unsupported: pass
    if not ok: return None
    for j in range(0,len(ok),100):
        for (m,vs),res in zip(ok[j:j+100],nat.run(task,ok[j:j+100])):
            if res is None: continue
            p,q=judge(task,m,vs,res)
            if p and not q:
                return {'task':task.name,'fn':task.fn,'inputs':vec_json(task,m,vs),'observed':out_json(task,res),'in_hex':encode_ins(task,vs,conc.Conc()).hex(),'mode':m,'origin':origin}
    return None
def exact_path(task,module,ex0,o,nat,r,tier):
    D=Exact(); 
    ms=15000 if tier=='quick' else 60000
    ex=symex.Executor(module,D,max_paths=400,timeout=40 if tier=='quick' else 200,solver_ms=ms,ext=task.ext,max_depth=task.max_depth); ex.loopbound=task.loopbound
    try:
        n=0
        for o2 in ex.explore(task.fn,lambda e:setup_args(task,D,e)):
            n+=1
            if o2.kind=='bound': continue
            on=outcome_ns(task,ex,o2); np=Not(tob(task.post(D,ex.i,on)))
            if ex.check([np],model=True)==z3.sat:
                m,vals=concretise_model(task,D,ex,ex.model,random.Random(1))
                v=try_native(task,nat,[(m,vals)],r)
                if v: return v
    except Unsupported: pass
    return None

def xvalidate(task,module,nat,rng,vectors,r,tier):
    """run the same inputs through the encoding (concretely) and through the compiled code; also check the
    specification on the compiled code's answers"""
    if not task.ccheck: return
    vecs=[]
    for m,v in vectors: vecs.append((m,fix_vec(task,v))); vecs.append((m,shape_vec(rng,task,fix_vec(task,v),False)))
    want=len(vecs)+task.vectors; tries=0
    while len(vecs)<want and tries<want*20:
        tries+=1
        m=rng.choice(MODES) if task.entry=='sym' else task.entry
        vecs.append((m,fix_vec(task,task.gen(rng) if task.gen else rand_vec(rng,task))))
    good=[]
    for m,vs in vecs:
        C=conc.Conc(); C.curk=next((t for n,t in task.ins if t in FPS),'double'); C.mode=m
        i=NS(**{n:(v if t in FPS else sgn_int(v,t)) for (n,t),v in zip(task.ins,vs)}); i.entry=m
        try:
            if truth(task.pre(C,i)): good.append((m,vs))
        except Unsupported: pass
    if not good: r['notes'].append('no cross-validation vector satisfied the precondition'); return
    res=nat.run(task,good)
    for (m,vs),nres in zip(good,res):
        if nres is None: continue
        p,q=judge(task,m,vs,nres)
        r['spec_checked']+=1
        if p and not q:
            r['violations'].append({'task':task.name,'fn':task.fn,'inputs':vec_json(task,m,vs),'observed':out_json(task,nres),'in_hex':encode_ins(task,vs,conc.Conc()).hex(),'mode':m,'origin':'cross-validation vector'}); return
        if nres['kind']=='abort': continue
        C=conc.Conc(); ex=symex.Executor(module,C,max_paths=1,ext=task.ext,max_depth=task.max_depth,max_steps=40000 if task.opts.get("cut") else 400000)
        try:
            outs=list(ex.explore(task.fn,lambda e:setup_args(task,C,e,values=vs,mode=m)))
        except (Unsupported,) as e:
            r['notes'].append('cross-validation: %s'%e); continue
        if not outs: continue
        o=outs[0]
        if o.kind=='bound' and task.opts.get('cut'): continue       # more loop iterations than the interpreter is given
        same = o.kind==nres['kind'] and (o.kind!='ret' or True) and (o.kind!='throw' or tnorm(o.tname)==tnorm(nres['tname'])) and o.mode==nres['mode']
        if same and o.kind=='ret':
            for j,(nm,t) in enumerate(task.outs):
                v=ex.load(symex.Ptr(ex.out.o,16*j),TY[t]); w=nres['outs'][j]
                if t in FPS: same=same and (v==w or (conc.eqv(v,w)))
                else: same=same and sgn_int(v,t)==w
        if same: r['xval']+=1
        else:
            r['notes'].append('translation mismatch on %s: encoding %s vs compiled %s'%(vec_json(task,m,vs),(o.kind,tnorm(o.tname),o.mode,[str(ex.load(symex.Ptr(ex.out.o,16*j),TY[t])) for j,(nm,t) in enumerate(task.outs)] if o.kind=='ret' else None),out_json(task,nres)))
            r['mismatch']=r.get('mismatch',0)+1

# ------------------------------------------------------------------------------------------ main
_G={}
def _worker(j):
    task=_G['tasks'][j]; m,so=_G['mods'][task.src if hasattr(task,'src') else 0]
    return run_task(task,m,so,_G['seed'],_G['tier'],_G['deadline'])
def main(pid,argv=None):
    import multiprocessing
    argv=sys.argv[1:] if argv is None else argv
    t0=time.time()
    tier=os.environ.get('VERIF_TIER','quick')
    if tier not in('quick','thorough'): tier='quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    only=None; repf=None; serial=False
    for a in argv:
        if a in('quick','thorough'): tier=a
        elif a.startswith('--task='): only=a[7:]
        elif a.startswith('--replay='): repf=a[9:]
        elif a=='--serial': serial=True
    total=300 if tier=='quick' else 800
    sys.path.insert(0,os.path.join(VERIF,'props'))
    mod=importlib.import_module(pid.lower())
    work=tempfile.mkdtemp(prefix='verif-%s-'%pid)
    try:
        return _main(pid,mod,work,tier,seed,only,repf,serial,t0,total)
    finally: shutil.rmtree(work,ignore_errors=True)
def _main(pid,mod,work,tier,seed,only,repf,serial,t0,total):
    import multiprocessing
    tasks=mod.tasks(tier)
    if only: tasks=[t for t in tasks if only in t.name]
    srcs=getattr(mod,'SOURCES',None) or [os.path.join(VERIF,'harness',pid.lower()+'.cpp')]
    mods=[]; notes=[]
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as tp: built=list(tp.map(lambda s:compile_harness(s,work,nflags=getattr(mod,'NATIVE_FLAGS',[]),cxx=getattr(mod,'NATIVE_CXX','g++'),asm=getattr(mod,'ASM',None)),srcs))
        mods=[(llvmir.Module(ll),so) for ll,so in built]
    except RuntimeError as e:
        print('check %s: cannot build the harness: %s'%(pid,e)); write_evidence(pid,tier,seed,[],t0,['harness does not compile']); return 2
    if repf: return do_replay(pid,tasks,mods,repf)
    # tasks whose harness is missing (none expected)
    for t in tasks:
        if not hasattr(t,'src'): t.src=0
    _G.update(tasks=tasks,mods=mods,seed=seed,tier=tier,deadline=t0+total)
    order=sorted(range(len(tasks)),key=lambda j:-tasks[j].weight)
    res=[None]*len(tasks); fast=os.environ.get('VERIF_FAST')       # development: stop at the first violation
    nproc=1 if serial else min(8,os.cpu_count() or 1,len(tasks))
    if nproc<=1:
        for j in order: res[j]=_worker(j)
    else:
        ctx=multiprocessing.get_context('fork')
        with ctx.Pool(nproc,maxtasksperchild=40) as pool:
            its=[(j,pool.apply_async(_worker,(j,))) for j in order]
            for j,a in its:
                if fast and any(r and r['violations'] for r in res): break
                try: res[j]=a.get(timeout=max(1,t0+total+60-time.time()))
                except Exception as e:
                    res[j]={'task':tasks[j].name,'fn':tasks[j].fn,'paths':0,'ret_paths':0,'queries':0,'proved':0,'unproved':['worker: %r'%e],'steps':0,'solver_s':0,'xval':0,'violations':[],'notes':[],'functions':[],'samples':[],'spec_checked':0,'domain':None,'wall':0}
            pool.terminate()
    res=[r for r in res if r]
    viol=[v for r in res for v in r['violations']]
    write_evidence(pid,tier,seed,res,t0,notes,mod)
    bad=[r for r in res if r['unproved']]
    for r in bad: print('  inconclusive: %s: %s'%(r['task'],'; '.join(r['unproved'][:3])[:300]))
    for r in res:
        for n in r['notes'][:2]: print('  note: %s: %s'%(r['task'],n[-600:]))
    np=sum(r['proved'] for r in res)
    print('%s (%s): %d tasks, %d paths, %d proved, %d inconclusive tasks, %d queries, solver %.1fs, %d traces cross-validated, %d mismatches, wall %.1fs'%(pid,tier,len(res),sum(r['paths'] for r in res),np,len(bad),sum(r['queries'] for r in res),sum(r['solver_s'] for r in res),sum(r['xval'] for r in res),sum(r.get('mismatch',0) for r in res),time.time()-t0))
    if os.environ.get('VERIF_SLOW'):
        for r in sorted(res,key=lambda r:-r['wall'])[:25]: print('  slow: %s %.1fs %d paths %d queries'%(r['task'],r['wall'],r['paths'],r['queries']))
    # listed findings still present?
    known_lines(pid,mod,mods,tasks)
    if viol:
        d=os.path.join(OUT or os.path.join(VERIF,'evidence'),'replay'); os.makedirs(d,exist_ok=True)
        v=viol[0]; h=hashlib.sha1((v['task']+v['in_hex']).encode()).hexdigest()[:10]
        path=os.path.join(d,'%s-%s.json'%(pid,h)); json.dump({'property':pid,'violations':viol},open(path,'w'),indent=1)
        for v in viol[:5]: print('  counterexample in %s: %s -> %s'%(v['task'],json.dumps(v['inputs']),json.dumps(v['observed'])))
        print('VIOLATION property=%s replay=%s'%(pid,path)); return 1
    if np==0: print('check %s decided nothing'%pid); return 2
    return 0
def known_lines(pid,mod,mods,tasks):
    p=os.path.join(VERIF,'known_findings.json')
    if not os.path.exists(p): return
    for k in json.load(open(p)):
        if k.get('property')==pid and k.get('status')=='known':
            f=getattr(mod,'known_'+k['id'],None)
            still=True
            if f:
                try: still=f(mods)
                except Exception as e: still=True
            if still: print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
def do_replay(pid,tasks,mods,repf):
    d=json.load(open(repf)); rc=0; C=conc.Conc()
    for v in d['violations']:
        t=[t for t in tasks if t.name==v['task']]
        if not t: continue
        t=t[0]; raw=bytes.fromhex(v['in_hex']); vals=[]
        for j,(n,ty) in enumerate(t.ins):
            b=raw[16*j:16*j+TY[ty].store]; vals.append(C.decode(b,ty) if ty in FPS else int.from_bytes(b,'little'))
        so=mods[getattr(t,'src',0)][1]
        first=[]
        if 'first_hex' in v:
            fr=bytes.fromhex(v['first_hex']); first=[(v['first_mode'],[C.decode(fr[16*j:16*j+TY[ty].store],ty) if ty in FPS else int.from_bytes(fr[16*j:16*j+TY[ty].store],'little') for j,(n,ty) in enumerate(t.ins)])]
        res=Native(so).run(t,first+[(v['mode'],vals)])[-1]; p,q=judge(t,v['mode'],vals,res)
        print(t.name,vec_json(t,v['mode'],vals),'->',out_json(t,res),'property holds' if q else 'PROPERTY VIOLATED')
        if not q: rc=1
    return rc
def write_evidence(pid,tier,seed,res,t0,notes,mod=None):
    fns=sorted({f for r in res for f in r['functions']})
    dem=demangle(fns)
    lib=[f for f in dem if 'boost::' in f]
    un=[{'task':r['task'],'why':r['unproved'][:5]} for r in res if r['unproved']]
    samples=[s for r in res for s in r['samples']][:6]
    cov={'states':sum(r['paths'] for r in res),'transitions':sum(r['steps'] for r in res),
      'traces_validated_against_impl':sum(r['xval'] for r in res),'samples':samples or [{'task':r['task']} for r in res[:1]],
      'states_meaning':'feasible symbolic paths through the encoded functions; transitions are IR instructions executed symbolically',
      'tasks':[{'task':r['task'],'paths':r['paths'],'returning':r['ret_paths'],'proved':r['proved'],'queries':r['queries'],'paths_cut_at_the_stated_bound':r.get('cut',0),'solver_s':round(r['solver_s'],2),'domain':r['domain'],'inconclusive':r['unproved'][:3]} for r in res],
      'obligations_proved':sum(r['proved'] for r in res),'obligations_undecided':sum(len(r['unproved']) for r in res),'undecided':un,
      'queries':sum(r['queries'] for r in res),'solver_seconds':round(sum(r['solver_s'] for r in res),2),
      'specification_checked_on_compiled_code':sum(r['spec_checked'] for r in res),'translation_mismatches':sum(r.get('mismatch',0) for r in res),
      'functions_encoded':len(fns),'library_functions_encoded':lib[:400],'bounds':getattr(mod,'BOUNDS','') if mod else '','notes':notes}
    ev={'property':pid,'tier':tier,'seed':seed,'level':'model_checking','coverage':cov,'assumptions':(getattr(mod,'ASSUMPTIONS',[]) if mod else [])+COMMON_ASSUMPTIONS,'wall_s':round(time.time()-t0,2),'violations':sum(len(r['violations']) for r in res)}
    d=OUT or os.path.join(VERIF,'evidence'); os.makedirs(d,exist_ok=True)
    json.dump(ev,open(os.path.join(d,pid+'.json'),'w'),indent=1)
COMMON_ASSUMPTIONS=['clang 18 -O0 -frounding-math IR of the current /repo headers represents the code; the hardware (SSE2 and x87 for long double) rounds as IEEE 754 says and follows fesetround',
 'order domain: + - * / sqrt, narrowing and integral rounding are represented by IEEE facts (monotone directed rounding, symmetry, exactness on identities); unsat answers hold for every bit pattern',
 'z3 is sound on the queries sent']
def demangle(fns):
    try:
        p=subprocess.run(['c++filt'],input='\n'.join(fns),capture_output=True,text=True,timeout=20); return p.stdout.split('\n')
    except Exception: return fns
if __name__=='__main__': sys.exit(main(sys.argv[1],sys.argv[2:]))
