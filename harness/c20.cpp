#include "common.hpp"
#define RX raw<I>(in,0)
#define RY raw<J>(in,2)
#define NSOP(K,N,op,T,S,P,Q) \
HARNESS(K##N##_##S##_##T) { typedef P<T>::type I; typedef I J; OUT(char,0)=il::compare::K::operator op(RX,RY); } \
HARNESS(K##N##m_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; OUT(char,0)=il::compare::K::operator op(RX,RY); } \
HARNESS(K##N##s_##S##_##T) { typedef P<T>::type I; OUT(char,0)=il::compare::K::operator op(RX,IN(T,2)); }
#define EXOP(F,T,S,P,Q) \
HARNESS(F##_##S##_##T) { typedef P<T>::type I; typedef I J; OUT(char,0)=il::F(RX,RY); } \
HARNESS(F##m_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; OUT(char,0)=il::F(RX,RY); } \
HARNESS(F##s_##S##_##T) { typedef P<T>::type I; OUT(char,0)=il::F(RX,IN(T,2)); } \
HARNESS(F##n_##S##_##T) { typedef P<T>::type I; OUT(char,0)=il::F(IN(T,2),RX); }
#define OP(N,op,T,S,P,Q) NSOP(certain,N,op,T,S,P,Q) NSOP(possible,N,op,T,S,P,Q) EXOP(cer##N,T,S,P,Q) EXOP(pos##N,T,S,P,Q)
#define ONE(T,S,P,Q) OP(lt,<,T,S,P,Q) OP(le,<=,T,S,P,Q) OP(gt,>,T,S,P,Q) OP(ge,>=,T,S,P,Q) OP(eq,==,T,S,P,Q) OP(ne,!=,T,S,P,Q)
#define ALLT(S,P,Q) ONE(float,S,P,Q) ONE(double,S,P,Q) ONE(ldouble,S,P,Q) ONE(int,S,P,Q)
ALLT(def,Idef,Iob) ALLT(ob,Iob,Idef)
