#include "common.hpp"
#define ONE(F,T,S,P) HARNESS(F##_##S##_##T) { typedef P<T>::type I; put(out,0,F(raw<I>(in,0))); }
#define ALLF(T,S,P) ONE(exp,T,S,P) ONE(log,T,S,P) ONE(sinh,T,S,P) ONE(tanh,T,S,P) ONE(asin,T,S,P) ONE(acos,T,S,P) ONE(atan,T,S,P) \
  ONE(asinh,T,S,P) ONE(acosh,T,S,P) ONE(atanh,T,S,P) ONE(cosh,T,S,P)
#define ALLT(S,P) ALLF(float,S,P) ALLF(double,S,P) ALLF(ldouble,S,P)
ALLT(tob,Itob) ALLT(tsb,Itsb) ALLT(tos,Itos)
