#include "common.hpp"
#define RX raw<I>(in,0)
#define RY raw<J>(in,2)
#define OP(N,op,T,S,P,Q) \
HARNESS(N##_##S##_##T) { typedef P<T>::type I; typedef I J; OUT(char,0)=(RX op RY); } \
HARNESS(N##m_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; OUT(char,0)=(RX op RY); } \
HARNESS(N##s_##S##_##T) { typedef P<T>::type I; OUT(char,0)=(RX op IN(T,2)); }
#define ONE(T,S,P,Q) OP(lt,<,T,S,P,Q) OP(le,<=,T,S,P,Q) OP(gt,>,T,S,P,Q) OP(ge,>=,T,S,P,Q) OP(eq,==,T,S,P,Q) OP(ne,!=,T,S,P,Q)
#define ALLT(S,P,Q) ONE(float,S,P,Q) ONE(double,S,P,Q) ONE(ldouble,S,P,Q) ONE(int,S,P,Q)
ALLT(def,Idef,Iob) ALLT(ob,Iob,Idef)
