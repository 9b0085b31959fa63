"""Boolean connectives that fold Python booleans, so that one specification text serves symbolic and concrete domains."""
import z3
from z3 import z3core as _zc
_ctx=z3.main_ctx(); _ref=_ctx.ref()
def _nary(mk,a):
    n=len(a); arr=(z3.Ast*n)()
    for i in range(n): arr[i]=a[i].ast
    return z3.BoolRef(mk(_ref,n,arr),_ctx)
def And(*a):
    r=[]
    for x in a:
        if isinstance(x,(list,tuple)):
            x=And(*x)
        if x is True: continue
        if isinstance(x,int):
            if not x: return False
            continue
        r.append(x)
    return True if not r else r[0] if len(r)==1 else _nary(_zc.Z3_mk_and,r)
def Or(*a):
    r=[]
    for x in a:
        if isinstance(x,(list,tuple)):
            x=Or(*x)
        if x is False: continue
        if isinstance(x,int):
            if x: return True
            continue
        r.append(x)
    return False if not r else r[0] if len(r)==1 else _nary(_zc.Z3_mk_or,r)
def Not(x):
    if isinstance(x,int): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.BoolRef(_zc.Z3_mk_not(_ref,x.ast),_ctx)
def Implies(a,b): return Or(Not(a),b)
def Iff(a,b):
    if isinstance(a,int): return b if a else Not(b)
    if isinstance(b,int): return a if b else Not(a)
    return a==b
def Xor(a,b): return Not(Iff(a,b))
def Ite(c,a,b): # boolean
    if isinstance(c,int): return a if c else b
    return Or(And(c,a),And(Not(c),b))
def tobool(x):
    if isinstance(x,int): return bool(x)
    if z3.is_bv(x):
        x=z3.simplify(x!=0)
    return True if z3.is_true(x) else False if z3.is_false(x) else x
def z(x): return z3.BoolVal(x) if isinstance(x,bool) else x
