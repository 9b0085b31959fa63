// A rounding policy that notes every call with an argument outside the domain the documentation promises it.
#include "ops.hpp"
static int bad;
template<class T> inline void want(bool c) { if (!c) bad = 1; }
template<class T> struct lim;
template<> struct lim<float> { static float pi2() { return 0x1.921fb4p+2f; } static float ph() { return 0x1.921fb4p+0f; } };
template<> struct lim<double> { static double pi2() { return 0x1.921fb54442d18p+2; } static double ph() { return 0x1.921fb54442d18p+0; } };
template<> struct lim<ldouble> { static ldouble pi2() { return 0xc.90fdaa22168c234p-1L; } static ldouble ph() { return 0xc.90fdaa22168c234p-3L; } };
#define F2(N,C) T N##_down(T const &x, T const &y) { want<T>(C); return B::N##_down(x,y); } T N##_up(T const &x, T const &y) { want<T>(C); return B::N##_up(x,y); }
#define F1(N,C) T N##_down(T const &x) { want<T>(C); return B::N##_down(x); } T N##_up(T const &x) { want<T>(C); return B::N##_up(x); }
#define NUM x == x
#define BOTH x == x && y == y
template<class T> struct R_dom : il::save_state<il::rounded_transc_std<T> > { typedef il::save_state<il::rounded_transc_std<T> > B; typedef R_dom unprotected_rounding;
  F2(add,BOTH) F2(sub,BOTH) F2(mul,BOTH) F2(div,x == x && y != 0 && y == y) F1(sqrt,x > 0) F1(exp,NUM) F1(log,x > 0) F1(cos,x >= 0 && x <= lim<T>::pi2()) F1(sin,NUM) F1(tan,x >= -lim<T>::ph() && x <= lim<T>::ph())
  F1(asin,x >= -1 && x <= 1) F1(acos,x >= -1 && x <= 1) F1(atan,NUM) F1(sinh,NUM) F1(cosh,NUM) F1(tanh,NUM) F1(asinh,NUM) F1(acosh,x >= 1) F1(atanh,x >= -1 && x <= 1) F1(int,NUM)
  T median(T const &x, T const &y) { want<T>(x == x && y == y); return B::median(x,y); } };
template<class T> struct Rd { typedef R_dom<T> type; };
template<class T> struct Idb : mk<T, Rd, il::checking_base<T> > {};
template<class T> struct Ids : mk<T, Rd, il::checking_strict<T> > {};
#define H(N,S,T,P) HARNESS(N##_##S##_##T) { bad = 0; try { OP_##N::run<P<T>::type>(in); } catch (...) { OUT(int,1) = 1; } OUT(int,0) = bad; }
#define Hf(N,K,E) H(N,db,float,Idb) H(N,ds,float,Ids)
#define Hd(N,K,E) H(N,db,double,Idb) H(N,ds,double,Ids)
#define Hl(N,K,E) H(N,db,ldouble,Idb) H(N,ds,ldouble,Ids)
ARITH_OPS(Hf) ARITH_OPS(Hd) ARITH_OPS(Hl)
TRANS_OPS(Hf) TRANS_OPS(Hd) TRANS_OPS(Hl)
TRIG_OPS(Hf) TRIG_OPS(Hd) TRIG_OPS(Hl)
