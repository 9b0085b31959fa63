#include "common.hpp"
#define R4(T,S,F,RT) HARNESS(F##_##S##_##T) { RT rnd; OUT(T,0)=rnd.F##_down(IN(T,0)); OUT(int,2)=std::fegetround(); OUT(T,1)=rnd.F##_up(IN(T,0)); OUT(int,3)=std::fegetround(); }
#define ALLF(T,S,RT) R4(T,S,exp,RT) R4(T,S,log,RT) R4(T,S,sin,RT) R4(T,S,cos,RT) R4(T,S,tan,RT) R4(T,S,asin,RT) R4(T,S,acos,RT) R4(T,S,atan,RT) \
  R4(T,S,sinh,RT) R4(T,S,cosh,RT) R4(T,S,tanh,RT) R4(T,S,asinh,RT) R4(T,S,acosh,RT) R4(T,S,atanh,RT)
#define ONE(T) ALLF(T,topp,R_topp<T>::type) ALLF(T,tstd,R_tstd<T>::type) ALLF(T,tex,il::rounded_transc_exact<T>)
ONE(float) ONE(double) ONE(ldouble)
