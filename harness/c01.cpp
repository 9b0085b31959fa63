#include "common.hpp"
#define OPS(T,S,P) \
HARNESS(add_##S##_##T) { typedef P<T>::type I; put(out,0, raw<I>(in,0)+raw<I>(in,2)); } \
HARNESS(sub_##S##_##T) { typedef P<T>::type I; put(out,0, raw<I>(in,0)-raw<I>(in,2)); } \
HARNESS(addis_##S##_##T) { typedef P<T>::type I; put(out,0, raw<I>(in,0)+IN(T,2)); } \
HARNESS(addsi_##S##_##T) { typedef P<T>::type I; put(out,0, IN(T,2)+raw<I>(in,0)); } \
HARNESS(subis_##S##_##T) { typedef P<T>::type I; put(out,0, raw<I>(in,0)-IN(T,2)); } \
HARNESS(subsi_##S##_##T) { typedef P<T>::type I; put(out,0, IN(T,2)-raw<I>(in,0)); } \
HARNESS(addas_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); x+=raw<I>(in,2); put(out,0,x); } \
HARNESS(subas_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); x-=raw<I>(in,2); put(out,0,x); } \
HARNESS(addass_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); x+=IN(T,2); put(out,0,x); } \
HARNESS(subass_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); x-=IN(T,2); put(out,0,x); } \
HARNESS(neg_##S##_##T) { typedef P<T>::type I; put(out,0, -raw<I>(in,0)); } \
HARNESS(plus_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0); I const &r = +x; put(out,0, r); }
#define ALLT(S,P) OPS(float,S,P) OPS(double,S,P) OPS(ldouble,S,P)
ALLT(def,Idef) ALLT(sb,Isb)
