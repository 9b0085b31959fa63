#include "common.hpp"
#define OPS(T,S,P) \
HARNESS(mul_##S##_##T) { typedef P<T>::type I; put(out,0, raw<I>(in,0)*raw<I>(in,2)); } \
HARNESS(mulis_##S##_##T) { typedef P<T>::type I; put(out,0, raw<I>(in,0)*IN(T,2)); } \
HARNESS(mulsi_##S##_##T) { typedef P<T>::type I; put(out,0, IN(T,2)*raw<I>(in,0)); } \
HARNESS(mulas_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); x*=raw<I>(in,2); put(out,0,x); } \
HARNESS(mulass_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); x*=IN(T,2); put(out,0,x); }
#define ALLT(S,P) OPS(float,S,P) OPS(double,S,P) OPS(ldouble,S,P)
ALLT(def,Idef) ALLT(sb,Isb)
