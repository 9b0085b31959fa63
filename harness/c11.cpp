#include "common.hpp"
#define TR(T,S,P) \
HARNESS(cos_##S##_##T) { typedef P<T>::type I; put(out,0, cos(raw<I>(in,0))); } \
HARNESS(sin_##S##_##T) { typedef P<T>::type I; put(out,0, sin(raw<I>(in,0))); } \
HARNESS(tan_##S##_##T) { typedef P<T>::type I; put(out,0, tan(raw<I>(in,0))); }
#define ALL(S,P) TR(float,S,P) TR(double,S,P) TR(ldouble,S,P)
ALL(tob,Itob) ALL(tsb,Itsb) ALL(tos,Itos) ALL(tss,Itss)
