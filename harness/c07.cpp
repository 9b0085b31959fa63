#include "common.hpp"
#define OPS(T,S,P) HARNESS(sqrt_##S##_##T) { typedef P<T>::type I; put(out,0, sqrt(raw<I>(in,0))); }
#define ALLT(S,P) OPS(float,S,P) OPS(double,S,P) OPS(ldouble,S,P)
ALLT(def,Idef) ALLT(sb,Isb) ALLT(ob,Iob) ALLT(tob,Itob)
