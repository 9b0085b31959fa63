#include "common.hpp"
#define RX raw<I>(in,0)
#define RY raw<J>(in,2)
#define NSOP(K,N,op,T,S,P,Q) \
HARNESS(K##N##_##S##_##T) { typedef P<T>::type I; typedef I J; OUT(char,0)=il::compare::K::operator op(RX,RY); } \
HARNESS(K##N##s_##S##_##T) { typedef P<T>::type I; OUT(char,0)=il::compare::K::operator op(RX,IN(T,2)); }
#define MIX(K,N,op,T,S,P,Q) \
HARNESS(K##N##m_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; OUT(char,0)=il::compare::K::operator op(RX,RY); }
// subset takes one policy only, so the mixed forms of set <= and >= do not exist
#define OP(N,op,T,S,P,Q) NSOP(lexicographic,N,op,T,S,P,Q) NSOP(set,N,op,T,S,P,Q) MIX(lexicographic,N,op,T,S,P,Q)
#define ONE(T,S,P,Q) OP(lt,<,T,S,P,Q) OP(le,<=,T,S,P,Q) OP(gt,>,T,S,P,Q) OP(ge,>=,T,S,P,Q) OP(eq,==,T,S,P,Q) OP(ne,!=,T,S,P,Q) \
 MIX(set,lt,<,T,S,P,Q) MIX(set,gt,>,T,S,P,Q) MIX(set,eq,==,T,S,P,Q) MIX(set,ne,!=,T,S,P,Q)
#define ALLT(S,P,Q) ONE(float,S,P,Q) ONE(double,S,P,Q) ONE(ldouble,S,P,Q) ONE(int,S,P,Q)
ALLT(def,Idef,Iob) ALLT(ob,Iob,Idef)
