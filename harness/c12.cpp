#include "common.hpp"
typedef long long llong; typedef unsigned long long ullong; typedef unsigned int uint; typedef short int sint; typedef long lng; typedef unsigned long ulng;
#define X IN(T_,0)
#define Y IN(T_,1)
// down result, up result, rounding mode after each
#define H2(N,T,S,RT,D,U) HARNESS(N##_##S##_##T) { typedef T T_; RT rnd; OUT(T,0)=rnd.D; OUT(int,2)=std::fegetround(); OUT(T,1)=rnd.U; OUT(int,3)=std::fegetround(); }
#define BIN(N,T,S,RT) H2(N,T,S,RT,N##_down(X,Y),N##_up(X,Y))
#define UN(N,F,T,S,RT) H2(N,T,S,RT,F##_down(X),F##_up(X))
#define CV(U,T,S,RT) H2(cv_##U,T,S,RT,conv_down(IN(U,0)),conv_up(IN(U,0)))
#define ONE(T,S,RT) BIN(add,T,S,RT) BIN(sub,T,S,RT) BIN(mul,T,S,RT) BIN(div,T,S,RT) UN(sqrt,sqrt,T,S,RT) UN(toint,int,T,S,RT) \
 HARNESS(median_##S##_##T) { RT rnd; OUT(T,0)=rnd.median(IN(T,0),IN(T,1)); OUT(int,1)=std::fegetround(); } \
 CV(sint,T,S,RT) CV(int,T,S,RT) CV(uint,T,S,RT) CV(lng,T,S,RT) CV(ulng,T,S,RT) CV(llong,T,S,RT) CV(ullong,T,S,RT) CV(float,T,S,RT) CV(double,T,S,RT) CV(ldouble,T,S,RT)
#define ALLT(S,R) ONE(float,S,R<float>::type) ONE(double,S,R<double>::type) ONE(ldouble,S,R<ldouble>::type)
ALLT(opp,R_opp) ALLT(std,R_std)
// rounding control: the requested mode is set, and a saved mode is restored
#define CTL(T) HARNESS(ctl_##T) { typedef il::rounding_control<T> C; C::rounding_mode m; C::get_rounding_mode(m); \
 C::downward(); OUT(int,0)=std::fegetround(); C::upward(); OUT(int,1)=std::fegetround(); C::to_nearest(); OUT(int,2)=std::fegetround(); \
 C::toward_zero(); OUT(int,3)=std::fegetround(); C::set_rounding_mode(m); OUT(int,4)=std::fegetround(); OUT(T,5)=C::to_int(IN(T,0)); OUT(T,6)=C::force_rounding(IN(T,0)); }
CTL(float) CTL(double) CTL(ldouble)
