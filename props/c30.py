from spec import *
import os, z3
BOUNDS='every back end that does not belong to this machine, compiled here with its own selection macros: x87 (GNU), the fast x87 variant, Microsoft 32 and 64 bit, Borland, PowerPC, SPARC, Alpha (GNU and vendor compiler), HP-UX ia64; every value of the control register on entry (Microsoft: every combination of the documented fields), every pair of requests; base operations + - * / sqrt, integer rounding, int conversion and whole interval operations on every bit pattern of every argument; float, double, long double (of this machine)'
ASSUMPTIONS=['the machine instructions that read and write the control register (fldcw, fnstcw, frndint, mtfsf, mffs, frsp, ld/st %fsr, mt_fpcr, mf_fpcr) and the run-time functions _control87, read_rnd, write_rnd are modelled in harness/c30_*.cpp after their manuals; arithmetic is that of this machine in the direction the register selects (x87 double rounding and other machines\' long double formats are outside)',
 'constants that a C++11 compiler rejects as narrowing (PowerPC, Alpha register images) are accepted as the older dialects accept them']
H=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness')
NAMES=['x87','x87fast','msvc','msvc64','bcc','ppc','sparc','alpha','alphadec','ia64']
SOURCES=[os.path.join(H,'c30_%s.cpp'%n) for n in NAMES]
ASM={'fldcw $0':'verif_fldcw','fnstcw $0':'verif_fnstcw','frndint':'verif_frndint_*','mtfsf 255,$0':'verif_mtfsf','mffs $0':'verif_mffs','frsp $0, $1':'verif_frsp',
 'ld $0, %fsr':'verif_ldfsr','st %fsr, $0':'verif_stfsr','mf_fpcr $0':'verif_mffpcr','mt_fpcr $0':'verif_mtfpcr'}
WIDTH={'x87':16,'x87fast':16,'bcc':16,'ppc':32,'sparc':32,'alpha':64,'alphadec':64,'ia64':2}
DIRS=[0,0x400,0x800,0xc00]           # nearest, down, up, zero, as the harness numbers them
def fld(r,hi,lo): return z3.Extract(hi,lo,bv(r))
def bv(r): return z3.BitVecVal(r,64) if isinstance(r,int) else r
def legal(b,r):
    """the register holds something the machine can hold"""
    r=bv(r)
    if b in('msvc','msvc64'): return And(r&~z3.BitVecVal(0x8001f|0x40000|0x300|0x30000,64)==0,(r&0x30000)!=0x30000)
    w=WIDTH[b]
    return True if w==64 else z3.LShR(r,w)==0
def quiet(b,r,T):
    """beyond the direction: exceptions masked, a precision that suits the type"""
    r=bv(r); need={'float':0,'double':2,'ldouble':3}[T]
    if b in('x87','x87fast','bcc'):
        pc=fld(r,9,8); return And(r&0x3f==0x3f,pc==need if b=='x87fast' else And(pc!=1,z3.UGE(pc,need)))
    if b=='msvc': 
        pc=r&0x30000; return And(r&0x8001f==0x8001f,Or(pc==0,And(pc==0x10000,need<=2),And(pc==0x20000,need==0)))
    if b=='msvc64': return r&0x8001f==0x8001f
    if b=='ppc': return r&0xfc==0
    if b=='sparc': return r&0x0fc00000==0
    return True
def ones(i,*n): return And(*[Or(*[i[x]==v for v in range(4)]) for x in n])
OPS=['add','sub','mul','div','sqrt','int','conv']
IOPS=['add','mul','div','sqrt','square','mid']
def tasks(tier):
    ts=[]
    for b,src in zip(NAMES,range(len(NAMES))):
        def add(t): t.src=src; ts.append(t)
        for T,k in(('float','float'),('double','double'),('ldouble','x86_fp80')):
            def pre(D,i,b=b): return And(legal(b,i.r),ones(i,'n'))
            def post(D,i,o,b=b,T=T): return ret(o,lambda:And(*[Implies(i.n==j,o.dir==DIRS[j]) for j in range(4)],quiet(b,o.reg,T)))
            add(Task('request/%s/%s'%(b,T),'dir_'+T,[('r','u64'),('n','i32')],[('dir','i32'),('reg','u64')],pre,post,domain='bits',consts={'n':[0,1,2,3]},gen=gen(b,['r','n'])))
            def pre(D,i,b=b): return And(legal(b,i.r),ones(i,'n','m'))
            def post(D,i,o,b=b): return ret(o,lambda:And(bv(o.reg)==bv(i.r),o.dir==direction(b,i.r)))
            add(Task('restore/%s/%s'%(b,T),'save_'+T,[('r','u64'),('n','i32'),('m','i32')],[('dir','i32'),('reg','u64')],pre,post,domain='bits',consts={'n':[0,1,2,3],'m':[0,1,2,3]},gen=gen(b,['r','n','m'])))
            for R in('std','opp'):
                for op in OPS:
                    if op=='int' and (b in('bcc',) or T=='ldouble' and b in('sparc','msvc','msvc64')): continue      # see DESIGN
                    def pre(D,i,b=b): return legal(b,i.r)
                    def post(D,i,o,b=b): return ret(o,lambda:And(D.same(o.lo,o.dlo),D.same(o.hi,o.dhi),bv(o.reg)==bv(i.r),o.dir==direction(b,i.r)))
                    add(Task('%s/%s/%s/%s'%(op,b,R,T),'o%s_%s_%s'%(op,R,T),[('r','u64'),('a',k),('b',k),('n','i32')],[('lo',k),('hi',k),('dlo',k),('dhi',k),('reg','u64'),('dir','i32')],pre,post,domain='bits',gen=gen(b,['r','a','b','n'],k),vectors=8))
                for op in IOPS:
                    if T=='double' and R=='opp' or tier=='thorough':
                        def pre(D,i,b=b): return legal(b,i.r)
                        def post(D,i,o,b=b): return ret(o,lambda:And(bv(o.reg)==bv(i.r),o.dir==direction(b,i.r),o.f==0))
                        add(Task('interval-%s/%s/%s/%s'%(op,b,R,T),'i%s_%s_%s'%(op,R,T),[('r','u64')]+[(x,k) for x in('xl','xu','yl','yu')],[('lo',k),('reg','u64'),('dir','i32'),('f','i32')],pre,post,domain='bits',gen=gen(b,['r','a','a','a','a'],k),vectors=8,max_paths=4000,weight=10))
    return ts
def direction(b,r):
    r=bv(r)
    f,tab={'x87':(fld(r,11,10),(0,0x400,0x800,0xc00)),'x87fast':(fld(r,11,10),(0,0x400,0x800,0xc00)),'bcc':(fld(r,11,10),(0,0x400,0x800,0xc00)),
     'msvc':(fld(r,9,8),(0,0x400,0x800,0xc00)),'msvc64':(fld(r,9,8),(0,0x400,0x800,0xc00)),'ppc':(fld(r,1,0),(0,0xc00,0x800,0x400)),
     'sparc':(fld(r,31,30),(0,0xc00,0x800,0x400)),'alpha':(fld(r,59,58),(0xc00,0x400,0,0x800)),'alphadec':(fld(r,59,58),(0xc00,0x400,0,0x800)),
     'ia64':(fld(r,1,0),(0,0x400,0x800,0xc00))}[b]
    e=z3.BitVecVal(tab[3],32)
    for j in(2,1,0): e=z3.If(f==j,z3.BitVecVal(tab[j],32),e)
    e=z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e
def gen(b,names,k=None):
    def g(rng):
        import runner
        out=[]
        for n in names:
            if n=='r':
                w=WIDTH.get(b,20); r=rng.getrandbits(w)
                if b[:4]=='msvc': r=(r&(0x8001f|0x40000|0x300))|rng.choice([0,0x10000,0x20000])
                out.append(r)
            elif n in('n','m') and k is None: out.append(rng.randrange(4))
            elif n=='n': out.append(rng.getrandbits(32))
            else:
                x=runner.rnd_mag(rng,k,rng.choice(['mid','int','any'])); out.append(rng.choice([x,-x]))
        return out
    return g
