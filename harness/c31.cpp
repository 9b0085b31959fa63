// A rounding policy that is only as good as its documented contract: every _down function returns some lower bound of the exact
// value and every _up function some upper bound, whichever the inputs q0..q7 choose.
#include "ops.hpp"
static const char *q_in; static int q_n;
template<class T> inline T q_next() { T q = *(const T*)(q_in + 16 * (6 + (q_n & 7))); ++q_n; return q; }
template<class T> inline T low_of(T d) { T q = q_next<T>(); return q < d ? q : d; }
template<class T> inline T up_of(T u) { T q = q_next<T>(); return q > u ? q : u; }
// the same, but never across zero
template<class T> inline T klow_of(T d) { T q = q_next<T>(); return q < d && !(d >= 0 && q < 0) ? q : d; }
template<class T> inline T kup_of(T u) { T q = q_next<T>(); return q > u && !(u <= 0 && q > 0) ? q : u; }
#define F2(N) T N##_down(T const &x, T const &y) { return LOW(B::N##_down(x,y)); } T N##_up(T const &x, T const &y) { return UP(B::N##_up(x,y)); }
#define F1(N) T N##_down(T const &x) { return LOW(B::N##_down(x)); } T N##_up(T const &x) { return UP(B::N##_up(x)); }
#define BODY(NAME) template<class T> struct NAME : il::save_state<il::rounded_transc_std<T> > { typedef il::save_state<il::rounded_transc_std<T> > B; typedef NAME unprotected_rounding; \
  F2(add) F2(sub) F2(mul) F2(div) F1(sqrt) F1(exp) F1(log) F1(sinh) F1(cosh) F1(tanh) F1(asin) F1(acos) F1(atan) F1(asinh) F1(acosh) F1(atanh) \
  template<class U> T conv_down(U const &v) { return LOW(B::conv_down(v)); } template<class U> T conv_up(U const &v) { return UP(B::conv_up(v)); } };
#define LOW low_of<T>
#define UP up_of<T>
BODY(R_loose)
#undef LOW
#undef UP
#define LOW klow_of<T>
#define UP kup_of<T>
BODY(R_keep)
template<class T> struct Rl { typedef R_loose<T> type; };
template<class T> struct Rk { typedef R_keep<T> type; };
template<class T> struct Ilo : mk<T, Rl, il::checking_base<T> > {};
template<class T> struct Ike : mk<T, Rk, il::checking_base<T> > {};
#define E(N,S,T,P) HARNESS(N##_##S##_##T) { q_in = in; q_n = 0; typedef P<T>::type I; res(out, 0, OP_##N::run<I>(in)); }
#define BOTH(T) HARNESS(both_lo_##T) { q_in = in; q_n = 0; typedef Ilo<T>::type I; I x=raw<I>(in,0), y=raw<I>(in,2); bool b; I r=il::division_part1(x,y,b); put(out,0,r); OUT(char,4)=b; put(out,2,b?il::division_part2(x,y,b):r); }
#define L(T) E(add,lo,T,Ilo) E(sub,lo,T,Ilo) E(mul,lo,T,Ilo) E(div,lo,T,Ilo) E(adds,lo,T,Ilo) E(sadd,lo,T,Ilo) E(subs,lo,T,Ilo) E(ssub,lo,T,Ilo) E(muls,lo,T,Ilo) E(smul,lo,T,Ilo) E(divs,lo,T,Ilo) E(sdiv,lo,T,Ilo) \
 E(addas,lo,T,Ilo) E(subas,lo,T,Ilo) E(mulas,lo,T,Ilo) E(divas,lo,T,Ilo) E(addass,lo,T,Ilo) E(subass,lo,T,Ilo) E(mulass,lo,T,Ilo) E(divass,lo,T,Ilo) \
 E(square,lo,T,Ilo) E(sqrt,lo,T,Ilo) E(inv,lo,T,Ilo) BOTH(T) E(widen,lo,T,Ilo) E(width,lo,T,Ilo) E(nadd,lo,T,Ilo) E(nsub,lo,T,Ilo) E(nmul,lo,T,Ilo) E(ndiv,lo,T,Ilo) \
 E(exp,lo,T,Ilo) E(log,lo,T,Ilo) E(sinh,lo,T,Ilo) E(cosh,lo,T,Ilo) E(tanh,lo,T,Ilo) E(asin,lo,T,Ilo) E(acos,lo,T,Ilo) E(atan,lo,T,Ilo) E(asinh,lo,T,Ilo) E(acosh,lo,T,Ilo) E(atanh,lo,T,Ilo) \
 E(pow2,ke,T,Ike) E(pow3,ke,T,Ike) E(pow6,ke,T,Ike) E(pown1,ke,T,Ike) E(pown2,ke,T,Ike)
L(float) L(double) L(ldouble)
