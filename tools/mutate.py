#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): token-level mutants of the headers, each run against the checks of its file.
usage: mutate.py OUT.jsonl [N] [SEED]   appends one line per mutant: file, line, old, new, caught_by / survived / build."""
import sys,re,os,random,json,subprocess,shutil,time
R='/repo/include/boost/numeric/interval/'
MAP={'arith.hpp':'C01 C02 C03 C25 C24 C27 C31 C32 C33','detail/division.hpp':'C03 C04 C32 C33','arith2.hpp':'C09 C04 C03 C07 C05 C06 C08 C24 C31 C32 C33','arith3.hpp':'C25',
 'transc.hpp':'C10 C11 C24 C31 C32 C33','rounded_arith.hpp':'C12 C01 C23 C27 C31','rounded_transc.hpp':'C13','utility.hpp':'C16 C17 C18 C05 C24 C31 C33','checking.hpp':'C24 C23',
 'compare/certain.hpp':'C20 C33','compare/possible.hpp':'C20 C33','compare/set.hpp':'C21','compare/lexicographic.hpp':'C21 C33','compare/tribool.hpp':'C22 C33','compare/explicit.hpp':'C20 C19',
 'interval.hpp':'C23 C19 C17 C24 C33','constants.hpp':'C26','limits.hpp':'C28','io.hpp':'C29','rounding.hpp':'C14 C15','policies.hpp':'C14 C15 C23','detail/test_input.hpp':'C24 C16 C33',
 'detail/c99_rounding_control.hpp':'C14 C12','detail/c99sub_rounding_control.hpp':'C14 C12','detail/x86_rounding_control.hpp':'C30','detail/x86gcc_rounding_control.hpp':'C30',
 'detail/ppc_rounding_control.hpp':'C30','detail/sparc_rounding_control.hpp':'C30','detail/alpha_rounding_control.hpp':'C30','detail/ia64_rounding_control.hpp':'C30',
 'detail/bcc_rounding_control.hpp':'C30','detail/msvc_rounding_control.hpp':'C30','ext/x86_fast_rounding_control.hpp':'C30','hw_rounding.hpp':'C12 C14','ext/integer.hpp':'C25'}
SUB=[(r'_up\b','_down'),(r'_down\b','_up'),(r'\blower\(\)','upper()'),(r'\bupper\(\)','lower()'),(r'\bxl\b','xu'),(r'\bxu\b','xl'),(r'\byl\b','yu'),(r'\byu\b','yl'),
 (r'(?<![<>])<(?![<=>])(?= )','<='),(r'<=','<'),(r'(?<=\) )>(?= )','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'is_neg','is_pos'),(r'is_pos','is_neg'),
 (r'!(?=[a-z(])',''),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bmax\b','min'),(r'\bmin\b','max'),(r'static_cast<T>\(0\)','static_cast<T>(1)'),(r'static_cast<T>\(1\)','static_cast<T>(0)'),
 (r'neg_inf','pos_inf'),(r'pos_inf','neg_inf'),(r'\bupward','downward'),(r'\bdownward','upward'),(r'\(-','('),(r' \+ ',' - '),(r' - ',' + '),(r'\blow\b','up'),(r'\bup\b','low'),(r'pow_dn','pow_up'),(r'pow_up','pow_dn'),(r'_upper<','_lower<'),(r'_lower<','_upper<'),
 (r'\? ','? 0*'),(r'is_zero','is_pos'),(r'else if','if'),(r'this->upward\(\);',''),(r'this->downward\(\);',''),(r'this->to_nearest\(\);',''),(r'& 1','& 2'),(r'\bempty\(x\)','empty(y)'),
 (r'0x([0-9a-f]+)',lambda m:hex(int(m.group(1),16)^0x400)),(r'\b(\d+)\b',lambda m:str(int(m.group(1))+1)),(r'\bget_rounding_mode\(','set_rounding_mode('),(r'round_up','round_down'),(r'round_down','round_up')]
def mutants():
    out=[]
    for f in MAP:
        L=open(R+f).read().split('\n'); com=False
        for n,l in enumerate(L):
            s=l.strip()
            if '/*' in s: com='*/' not in s; continue
            if com: com='*/' not in s; continue
            if not s or s.startswith(('//','#','template','typedef','namespace','using','class','struct','*')): continue
            for a,b in SUB:
                for m in re.finditer(a,l):
                    if '//' in l[:m.start()]: continue
                    out.append((f,n,l,l[:m.start()]+(b(m) if callable(b) else b)+l[m.end():]))
    return out
def args_of(l,i):
    """arguments of the call whose opening parenthesis is l[i]; None if it does not end on the line"""
    d=0; cur=''; a=[]
    for j in range(i,len(l)):
        c=l[j]
        if c=='(':
            d+=1
            if d==1: continue
        if c==')':
            d-=1
            if d==0: return a+[cur],j+1
        if c==',' and d==1: a.append(cur); cur=''; continue
        cur+=c
    return None
def conditional():
    """a rounding function rounds the wrong way, or a bound is replaced by the other, for particular values only"""
    out=[]
    for f in('arith.hpp','arith2.hpp','detail/division.hpp','transc.hpp','utility.hpp','arith3.hpp'):
        L=open(R+f).read().split('\n')
        for n,l in enumerate(L):
            for m in re.finditer(r'\b(rnd|this->rnd|I::rounding\(\))?\.?(\w+)_(down|up)\s*(?=\()',l):
                if m.group(1)!='rnd': continue
                r=args_of(l,m.end())
                if not r: continue
                a,e=r; other='up' if m.group(3)=='down' else 'down'; call=l[m.start():e]; wrong=call.replace(m.group(2)+'_'+m.group(3),m.group(2)+'_'+other,1)
                for x in a:
                    for cond in('(%s) == static_cast<T>(3)'%x,'(%s) == static_cast<T>(-5)'%x,'(%s) > (std::numeric_limits<T>::max)() / 4'%x,'(%s) > 0 && (%s) < (std::numeric_limits<T>::min)()'%(x,x),
                        '(%s) < static_cast<T>(-1000)'%x,'(%s) == static_cast<T>(%s)'%(a[0],a[-1]) if len(a)>1 else '(%s) == static_cast<T>(0.5)'%x,'(%s) > static_cast<T>(1) && (%s) < static_cast<T>(1.0001)'%(x,x)):
                        out.append((f,n,l,l[:m.start()]+'((%s) ? %s : %s)'%(cond,wrong,call)+l[e:]))
    return out
def main():
    out=sys.argv[1]; N=int(sys.argv[2]) if len(sys.argv)>2 else 100; rng=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1)
    M=conditional() if 'cond' in sys.argv else mutants(); print(len(M),'mutants'); by={}
    for m in M: by.setdefault(m[0],[]).append(m)
    pick=[]
    fs=[f for f in by for _ in range(max(1,round(len(by[f])**.5)))]
    while len(pick)<N and by:
        f=rng.choice(fs)
        if by.get(f): pick.append(by[f].pop(rng.randrange(len(by[f]))))
    d='/tmp/mutc.%d'%os.getpid()
    for f,n,old,new in pick:
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d); shutil.copytree('/repo/include',d+'/include')
        p=d+'/include/boost/numeric/interval/'+f; L=open(p).read().split('\n'); L[n]=new; open(p,'w').write('\n'.join(L))
        r=dict(file=f,line=n+1,old=old.strip(),new=new.strip(),caught=None,log=[])
        for c in MAP[f].split():
            t=time.time()
            try:
                q=subprocess.run(['/verif/check',c,'quick'],cwd='/verif',env=dict(os.environ,VERIF_REPO=d,VERIF_FAST='1',VERIF_OUT=d+'/ev'),capture_output=True,text=True,timeout=600)
                rc=q.returncode; w=q.stdout
            except subprocess.TimeoutExpired: rc='timeout'; w=''
            inc=w.count('inconclusive: ')
            r['log'].append((c,rc,inc,round(time.time()-t)))
            if rc==1 and 'VIOLATION' in w: r['caught']=c; break
            if rc==2: r['caught']='build'; break
        open(out,'a').write(json.dumps(r)+'\n')
    shutil.rmtree(d,ignore_errors=True)
main()
