"""names of the operations listed in harness/ops.hpp"""
import re, os
_t=open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness','ops.hpp')).read()
def ops(which):
    m=re.search(r'#define %s_OPS\(M\)((?:.*\\\n)*.*)\n'%which,_t); return re.findall(r'M\((\w+),',m.group(1))
ARITH,PRED,TRANS,TRIG,CONV,ROOT=[ops(w) for w in('ARITH','PRED','TRANS','TRIG','CONV','ROOT')]
