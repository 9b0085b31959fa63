#include "common.hpp"
#define FM(T,S,P) \
HARNESS(ii_##S##_##T) { typedef P<T>::type I; put(out,0, fmod(raw<I>(in,0),raw<I>(in,2))); } \
HARNESS(is_##S##_##T) { typedef P<T>::type I; put(out,0, fmod(raw<I>(in,0),IN(T,2))); } \
HARNESS(si_##S##_##T) { typedef P<T>::type I; put(out,0, fmod(IN(T,0),raw<I>(in,1))); }
#define ALL(S,P) FM(float,S,P) FM(double,S,P) FM(ldouble,S,P)
ALL(def,Idef) ALL(sb,Isb) ALL(ob,Iob) ALL(tos,Itos) ALL(tss,Itss)
HARNESS(ii_ex_double) { typedef Iex<double>::type I; put(out,0, fmod(raw<I>(in,0),raw<I>(in,2))); }
HARNESS(is_ex_double) { typedef Iex<double>::type I; put(out,0, fmod(raw<I>(in,0),IN(double,2))); }
HARNESS(si_ex_double) { typedef Iex<double>::type I; put(out,0, fmod(IN(double,0),raw<I>(in,1))); }
