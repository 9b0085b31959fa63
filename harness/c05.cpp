#include "common.hpp"
#define OPS(T,S,P) \
HARNESS(abs_##S##_##T) { typedef P<T>::type I; put(out,0, abs(raw<I>(in,0))); } \
HARNESS(square_##S##_##T) { typedef P<T>::type I; put(out,0, square(raw<I>(in,0))); } \
HARNESS(min_##S##_##T) { typedef P<T>::type I; put(out,0, (bn::min)(raw<I>(in,0),raw<I>(in,2))); } \
HARNESS(max_##S##_##T) { typedef P<T>::type I; put(out,0, (bn::max)(raw<I>(in,0),raw<I>(in,2))); } \
HARNESS(minis_##S##_##T) { typedef P<T>::type I; put(out,0, (bn::min)(raw<I>(in,0),IN(T,2))); } \
HARNESS(maxis_##S##_##T) { typedef P<T>::type I; put(out,0, (bn::max)(raw<I>(in,0),IN(T,2))); } \
HARNESS(minsi_##S##_##T) { typedef P<T>::type I; put(out,0, (bn::min)(IN(T,2),raw<I>(in,0))); } \
HARNESS(maxsi_##S##_##T) { typedef P<T>::type I; put(out,0, (bn::max)(IN(T,2),raw<I>(in,0))); }
#define ALLT(S,P) OPS(float,S,P) OPS(double,S,P) OPS(ldouble,S,P)
ALLT(def,Idef) ALLT(sb,Isb)
