#include "common.hpp"
// two symbolic bounds, and intervals with one bound fixed (-1, 0 or 1) so that only one root is computed iteratively
#define RT(K,T,S,P) HARNESS(root##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(raw<I>(in,0),K)); } \
HARNESS(pt##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(IN(T,0)),K)); } \
HARNESS(a##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(T(1),IN(T,0),true),K)); } \
HARNESS(b##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(IN(T,0),T(1),true),K)); } \
HARNESS(z##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(T(0),IN(T,0),true),K)); } \
HARNESS(na##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(IN(T,0),T(-1),true),K)); } \
HARNESS(nb##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(T(-1),IN(T,0),true),K)); } \
HARNESS(nz##K##_##S##_##T) { typedef P<T>::type I; put(out,0, nth_root(I(IN(T,0),T(0),true),K)); }
#define ALLK(T,S,P) RT(1,T,S,P) RT(2,T,S,P) RT(3,T,S,P) RT(4,T,S,P) RT(5,T,S,P) RT(7,T,S,P) RT(16,T,S,P) RT(31,T,S,P)
#define ALL(S,P) ALLK(float,S,P) ALLK(double,S,P) ALLK(ldouble,S,P)
ALL(def,Idef) ALL(sb,Isb) ALL(ob,Iob)
