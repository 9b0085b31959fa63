"""Load textual LLVM IR through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes, re
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_size_t, byref, POINTER

_L = None
def _lib():
    global _L
    if _L is not None: return _L
    for n in ('/usr/lib/llvm-18/lib/libLLVM-18.so','/usr/lib/llvm-18/lib/libLLVM.so.18.1','libLLVM-18.so'):
        try:
            _L = ctypes.CDLL(n); break
        except OSError: pass
    if _L is None: raise RuntimeError('libLLVM-18 not found')
    L=_L
    P=c_void_p
    def d(name,res,*args):
        f=getattr(L,name); f.restype=res; f.argtypes=list(args)
    d('LLVMContextCreate',P)
    d('LLVMCreateMemoryBufferWithContentsOfFile',c_int,c_char_p,POINTER(P),POINTER(c_char_p))
    d('LLVMParseIRInContext',c_int,P,P,POINTER(P),POINTER(c_char_p))
    d('LLVMGetDataLayoutStr',c_char_p,P)
    d('LLVMCreateTargetData',P,c_char_p)
    d('LLVMABISizeOfType',c_ulonglong,P,P)
    d('LLVMStoreSizeOfType',c_ulonglong,P,P)
    d('LLVMOffsetOfElement',c_ulonglong,P,P,c_uint)
    for n in ('LLVMGetFirstFunction','LLVMGetNextFunction','LLVMGetFirstGlobal','LLVMGetNextGlobal','LLVMGetInitializer',
              'LLVMGetFirstParam','LLVMGetNextParam','LLVMGetFirstBasicBlock','LLVMGetNextBasicBlock','LLVMGetFirstInstruction',
              'LLVMGetNextInstruction','LLVMTypeOf','LLVMGlobalGetValueType','LLVMGetAllocatedType','LLVMGetGEPSourceElementType',
              'LLVMGetNormalDest','LLVMGetUnwindDest','LLVMGetCalledValue','LLVMGetCalledFunctionType','LLVMGetElementType','LLVMGetReturnType',
              'LLVMBasicBlockAsValue','LLVMGetSwitchDefaultDest','LLVMGetFirstGlobalAlias','LLVMGetNextGlobalAlias','LLVMAliasGetAliasee'):
        d(n,P,P)
    for n in ('LLVMGetOperand','LLVMGetSuccessor','LLVMGetClause','LLVMGetIncomingValue','LLVMGetIncomingBlock','LLVMGetElementAsConstant','LLVMStructGetTypeAtIndex'):
        d(n,P,P,c_uint)
    d('LLVMGetElementAsConstant',P,P,c_uint)
    for n in ('LLVMGetInstructionOpcode','LLVMGetICmpPredicate','LLVMGetFCmpPredicate','LLVMGetTypeKind','LLVMGetNumOperands','LLVMGetValueKind',
              'LLVMGetConstOpcode','LLVMIsConstant','LLVMIsDeclaration','LLVMIsPackedStruct','LLVMIsUndef','LLVMIsCleanup','LLVMIsGlobalConstant'):
        d(n,c_int,P)
    for n in ('LLVMGetIntTypeWidth','LLVMGetArrayLength','LLVMGetVectorSize','LLVMCountStructElementTypes','LLVMGetNumSuccessors',
              'LLVMGetNumClauses','LLVMCountIncoming','LLVMGetNumArgOperands','LLVMGetNumIndices'):
        d(n,c_uint,P)
    d('LLVMGetNSW',c_int,P)
    d('LLVMConstIntGetZExtValue',c_ulonglong,P)
    d('LLVMPrintValueToString',c_void_p,P)
    d('LLVMPrintTypeToString',c_void_p,P)
    d('LLVMDisposeMessage',None,c_void_p)
    d('LLVMGetValueName2',c_char_p,P,POINTER(c_size_t))
    d('LLVMGetIndices',POINTER(c_uint),P)
    d('LLVMGetInlineAsmAsmString',c_char_p,P,POINTER(c_size_t))
    return L

OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',
 29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',
 53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# type kinds
TK={0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',5:'fp128',6:'ppc_fp128',7:'label',8:'int',9:'function',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}

class Ty:
    __slots__=('k','n','elts','size','store','offs','fields')
    def __repr__(s):
        return {'int':f'i{s.n}','array':f'[{s.n} x {s.elts}]'}.get(s.k, s.k)
    @property
    def isfp(s): return s.k in ('float','double','x86_fp80','half','fp128')

class Func:
    __slots__=('name','ref','decl','_mod','_body','args','entry')
class Instr:
    __slots__=('op','ty','ops','x','id','txt')
    def __repr__(s): return f'<{s.op} {s.id}>'
class Block:
    __slots__=('name','instrs','id')

class Module:
    def __init__(self,path):
        L=_lib(); self.L=L
        ctx=L.LLVMContextCreate(); self.ctx=ctx
        mb=c_void_p(); msg=c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(),byref(mb),byref(msg)): raise RuntimeError(msg.value)
        m=c_void_p(); msg=c_char_p()
        if L.LLVMParseIRInContext(ctx,mb,byref(m),byref(msg)): raise RuntimeError(msg.value)
        self.m=m
        self.dl=L.LLVMCreateTargetData(L.LLVMGetDataLayoutStr(m))
        self._ty={}
        self.funcs={}
        self.fref={}
        f=L.LLVMGetFirstFunction(m)
        while f:
            fn=Func(); fn.name=self.vname(f); fn.ref=f; fn.decl=bool(L.LLVMIsDeclaration(f)); fn._body=None; fn._mod=self
            self.funcs[fn.name]=fn; self.fref[f]=fn
            f=L.LLVMGetNextFunction(f)
        self.globals={}; self.gref={}
        g=L.LLVMGetFirstGlobal(m)
        while g:
            n=self.vname(g); self.globals[n]=g; self.gref[g]=n
            g=L.LLVMGetNextGlobal(g)
        self._ginit={}
        self.alias={}
        a=L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.alias[a]=L.LLVMAliasGetAliasee(a)
            a=L.LLVMGetNextGlobalAlias(a)
    def vname(self,v):
        n=c_size_t(); s=self.L.LLVMGetValueName2(v,byref(n)); return s.decode() if s else ''
    def vstr(self,v):
        p=self.L.LLVMPrintValueToString(v); s=ctypes.string_at(p).decode(); self.L.LLVMDisposeMessage(p); return s
    def ty(self,t):
        r=self._ty.get(t)
        if r is not None: return r
        L=self.L; r=Ty(); self._ty[t]=r
        k=TK.get(L.LLVMGetTypeKind(t),'?'); r.k=k; r.n=None; r.elts=None; r.offs=None; r.fields=None; r.size=r.store=None
        if k=='int': r.n=L.LLVMGetIntTypeWidth(t)
        elif k=='array': r.n=L.LLVMGetArrayLength(t); r.elts=self.ty(L.LLVMGetElementType(t))
        elif k=='vector': r.n=L.LLVMGetVectorSize(t); r.elts=self.ty(L.LLVMGetElementType(t))
        elif k=='struct':
            n=L.LLVMCountStructElementTypes(t); r.n=n
            r.fields=[self.ty(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(n)]
            try: r.offs=[L.LLVMOffsetOfElement(self.dl,t,i) for i in range(n)]
            except Exception: pass
        if k in ('int','float','double','x86_fp80','half','fp128','ptr','struct','array','vector'):
            r.size=L.LLVMABISizeOfType(self.dl,t); r.store=L.LLVMStoreSizeOfType(self.dl,t)
        return r
    # ---- operands -------------------------------------------------------
    def operand(self,v,ids):
        """-> ('v',id) | ('int',ty,val) | ('fp',ty,text) | ('undef',ty) | ('null',) | ('g',name) | ('f',Func) | ('agg',ty,[..]) | ('zero',ty) | ('gep',...)"""
        L=self.L
        i=ids.get(v)
        if i is not None: return ('v',i)
        if v in self.alias: return self.operand(self.alias[v],ids)
        if v in self.fref: return ('f',self.fref[v])
        if v in self.gref: return ('g',self.gref[v])
        k=L.LLVMGetValueKind(v); t=self.ty(L.LLVMTypeOf(v)) if k not in (23,) else None
        # LLVMValueKind: 12 Undef,13 AggZero,14 DataArray,15 DataVector,16 ConstInt,17 ConstFP,18 NullPtr,19 TokenNone,20 MetadataAsValue,21 InlineAsm
        if k==18 and t.k=='int': pass
        kk=VK.get(k)
        if kk=='int':
            if t.n<=64: return ('int',t,L.LLVMConstIntGetZExtValue(v)&((1<<t.n)-1))
            return ('int',t,int(self.vstr(v).split()[-1])&((1<<t.n)-1))
        if kk=='fp': return ('fp',t,self.vstr(v).split()[-1])
        if kk in ('undef','poison'): return ('undef',t)
        if kk=='null': return ('null',)
        if kk=='zero': return ('zero',t)
        if kk in ('array','struct','vector'):
            n=L.LLVMGetNumOperands(v); return ('agg',t,[self.operand(L.LLVMGetOperand(v,j),ids) for j in range(n)])
        if kk in ('darray','dvector'):
            return ('agg',t,[self.operand(L.LLVMGetElementAsConstant(v,j),ids) for j in range(t.n)])
        if kk=='expr':
            op=OPC.get(L.LLVMGetConstOpcode(v))
            ops=[self.operand(L.LLVMGetOperand(v,j),ids) for j in range(L.LLVMGetNumOperands(v))]
            st=self.ty(L.LLVMGetGEPSourceElementType(v)) if op=='gep' else None
            return ('cexpr',op,t,ops,st)
        if kk=='md': return ('md',self.vstr(v))
        if kk=='asm':
            n=c_size_t(); s=L.LLVMGetInlineAsmAsmString(v,byref(n)); return ('asm',s.decode())
        return ('?',k,self.vstr(v)[:200])
    def ginit(self,name):
        if name in self._ginit: return self._ginit[name]
        g=self.globals[name]; L=self.L
        t=self.ty(L.LLVMGlobalGetValueType(g)); i=L.LLVMGetInitializer(g)
        r=(t,self.operand(i,{}) if i else None); self._ginit[name]=r; return r
    def body(self,fn):
        if fn._body is not None: return fn._body
        L=self.L; ids={}; n=0
        a=L.LLVMGetFirstParam(fn.ref); args=[]
        while a:
            ids[a]=n; args.append((n,self.ty(L.LLVMTypeOf(a)))); n+=1; a=L.LLVMGetNextParam(a)
        blocks=[]; bid={}
        b=L.LLVMGetFirstBasicBlock(fn.ref)
        while b:
            bid[L.LLVMBasicBlockAsValue(b)]=len(blocks); bid[b]=len(blocks)
            il=[]; i=L.LLVMGetFirstInstruction(b)
            while i:
                ids[i]=n; n+=1; il.append(i); i=L.LLVMGetNextInstruction(i)
            blocks.append((b,il)); b=L.LLVMGetNextBasicBlock(b)
        out=[]
        for b,il in blocks:
            lst=[]
            for i in il: lst.append(self._instr(i,ids,bid))
            out.append(lst)
        fn._body=(args,out,n); return fn._body
    def _instr(self,i,ids,bid):
        L=self.L; r=Instr(); op=OPC.get(L.LLVMGetInstructionOpcode(i),'?'); r.op=op; r.id=ids[i]; r.ty=self.ty(L.LLVMTypeOf(i)); r.x=None; r.ops=(); r.txt=None
        O=lambda j:self.operand(L.LLVMGetOperand(i,j),ids)
        nops=L.LLVMGetNumOperands(i)
        if op=='br':
            if L.LLVMGetNumSuccessors(i)==1: r.x=(bid[L.LLVMGetSuccessor(i,0)],)
            else: r.ops=(O(0),); r.x=(bid[L.LLVMGetSuccessor(i,0)],bid[L.LLVMGetSuccessor(i,1)])
        elif op=='switch':
            r.ops=(O(0),)
            cases=[]
            for j in range(2,nops,2):
                cases.append((L.LLVMConstIntGetZExtValue(L.LLVMGetOperand(i,j)),bid[L.LLVMGetOperand(i,j+1)]))
            r.x=(bid[L.LLVMGetOperand(i,1)],cases)
        elif op in ('call','invoke'):
            na=L.LLVMGetNumArgOperands(i)
            r.ops=tuple(O(j) for j in range(na))
            cal=self.operand(L.LLVMGetCalledValue(i),ids)
            dest=(bid[L.LLVMBasicBlockAsValue(L.LLVMGetNormalDest(i))],bid[L.LLVMBasicBlockAsValue(L.LLVMGetUnwindDest(i))]) if op=='invoke' else None
            r.x=(cal,dest)
        elif op=='phi':
            r.x=[(bid[L.LLVMBasicBlockAsValue(L.LLVMGetIncomingBlock(i,j))],self.operand(L.LLVMGetIncomingValue(i,j),ids)) for j in range(L.LLVMCountIncoming(i))]
        elif op=='alloca':
            r.ops=(O(0),); r.x=self.ty(L.LLVMGetAllocatedType(i))
        elif op=='gep':
            r.ops=tuple(O(j) for j in range(nops)); r.x=self.ty(L.LLVMGetGEPSourceElementType(i))
        elif op=='icmp': r.ops=(O(0),O(1)); r.x=(ICMP[L.LLVMGetICmpPredicate(i)],self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0))))
        elif op=='fcmp': r.ops=(O(0),O(1)); r.x=FCMP[L.LLVMGetFCmpPredicate(i)]
        elif op in ('extractvalue','insertvalue'):
            n=L.LLVMGetNumIndices(i); p=L.LLVMGetIndices(i)
            r.ops=tuple(O(j) for j in range(nops)); r.x=[p[j] for j in range(n)]
        elif op=='landingpad':
            r.x=(bool(L.LLVMIsCleanup(i)),[self.operand(L.LLVMGetClause(i,j),ids) for j in range(L.LLVMGetNumClauses(i))])
        elif op in ('load',):
            r.ops=(O(0),)
        elif op=='store':
            r.ops=(O(0),O(1)); r.x=self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
        elif op in ('add','sub','mul','shl'):
            r.ops=(O(0),O(1)); r.x=bool(L.LLVMGetNSW(i))
        elif op=='shufflevector':
            r.ops=(O(0),O(1)); r.txt=self.vstr(i)
        else:
            r.ops=tuple(O(j) for j in range(nops))
            if op in ('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','bitcast','ptrtoint','inttoptr','freeze'):
                r.x=self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
            if op=='?': r.txt=self.vstr(i)
        return r
VK={}
def _vk():
    # enum LLVMValueKind (Core.h, LLVM 18)
    names=['Argument','BasicBlock','MemoryUse','MemoryDef','MemoryPhi','Function','GlobalAlias','GlobalIFunc','GlobalVariable','BlockAddress',
     'ConstantExpr','ConstantArray','ConstantStruct','ConstantVector','UndefValue','ConstantAggregateZero','ConstantDataArray','ConstantDataVector',
     'ConstantInt','ConstantFP','ConstantPointerNull','ConstantTokenNone','MetadataAsValue','InlineAsm','Instruction','Poison','ConstantTargetNone']
    m={'ConstantExpr':'expr','ConstantArray':'array','ConstantStruct':'struct','ConstantVector':'vector','UndefValue':'undef','ConstantAggregateZero':'zero',
     'ConstantDataArray':'darray','ConstantDataVector':'dvector','ConstantInt':'int','ConstantFP':'fp','ConstantPointerNull':'null','MetadataAsValue':'md','InlineAsm':'asm','Poison':'poison'}
    for i,n in enumerate(names):
        if n in m: VK[i]=m[n]
_vk()
