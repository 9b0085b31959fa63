#include "common.hpp"
#include <climits>
// pow and the multiplicative inverse of the positive power, each with what it threw (0 nothing, 1 runtime_error)
#define PW(N,K,T,S,P) HARNESS(pow_##N##_##S##_##T) { typedef P<T>::type I; put(out,0, pow(raw<I>(in,0),(K))); }
#define NP(N,K,T,S,P) HARNESS(pow_m##N##_##S##_##T) { typedef P<T>::type I; put(out,0, pow(raw<I>(in,0),-(K))); } \
HARNESS(rel_##N##_##S##_##T) { typedef P<T>::type I; I x = raw<I>(in,0); int e = 0, f = 0; T a = 0, b = 0, c = 0, d = 0; \
 try { I r = pow(x,-(K)); a = r.lower(); b = r.upper(); } catch (std::runtime_error const &) { e = 1; } \
 try { I r = il::multiplicative_inverse(pow(x,(K))); c = r.lower(); d = r.upper(); } catch (std::runtime_error const &) { f = 1; } \
 OUT(T,0)=a; OUT(T,1)=b; OUT(T,2)=c; OUT(T,3)=d; OUT(int,4)=e; OUT(int,5)=f; }
#define ALLK(T,S,P) PW(0,0,T,S,P) PW(1,1,T,S,P) PW(2,2,T,S,P) PW(3,3,T,S,P) PW(4,4,T,S,P) PW(5,5,T,S,P) PW(6,6,T,S,P) PW(7,7,T,S,P) PW(8,8,T,S,P) PW(9,9,T,S,P) PW(10,10,T,S,P) \
 PW(11,11,T,S,P) PW(12,12,T,S,P) PW(13,13,T,S,P) PW(14,14,T,S,P) PW(15,15,T,S,P) PW(16,16,T,S,P) PW(17,17,T,S,P) PW(31,31,T,S,P) PW(64,64,T,S,P) PW(100,100,T,S,P) PW(1001,1001,T,S,P) \
 PW(max,INT_MAX,T,S,P) PW(min,INT_MIN,T,S,P) NP(1,1,T,S,P) NP(2,2,T,S,P) NP(3,3,T,S,P) NP(4,4,T,S,P) NP(5,5,T,S,P) NP(6,6,T,S,P) NP(7,7,T,S,P) NP(8,8,T,S,P) NP(17,17,T,S,P) NP(100,100,T,S,P) NP(max,INT_MAX,T,S,P)
#define ALL(S,P) ALLK(float,S,P) ALLK(double,S,P) ALLK(ldouble,S,P)
ALL(def,Idef) ALL(sb,Isb) ALL(ob,Iob) ALL(ex,Iex)
// every exponent: a policy whose product is a (*) b = a + b - 1 (so that 1 is neutral and the k-th power of x > 0 is k (x - 1) + 1),
// exactly, and with one unit of outward rounding in every product
static int mono_sd, mono_su;
struct R_mono : il::save_state_nothing<il::rounded_arith_exact<long long> > { typedef R_mono unprotected_rounding;
 static long long inv(long long y) { return y > 0 ? 2 - y : -2 - y; }
 long long mul_down(long long a, long long b) { return a + b - 1 - mono_sd; }  long long mul_up(long long a, long long b) { return a + b - 1 + mono_su; }
 long long div_down(long long, long long y) { return inv(y) - mono_sd; }  long long div_up(long long, long long y) { return inv(y) + mono_su; } };
template<int L, int U> void monopow(const char *in, char *out) { typedef boost::numeric::interval<long long, il::policies<R_mono, il::checking_base<long long> > > I; int k = IN(int,0);
 for (int i = 0; i < 2; ++i) { mono_sd = mono_su = i; I r = pow(I(L, U, true), k); OUT(long long,2*i) = r.lower(); OUT(long long,2*i+1) = r.upper(); } }
HARNESS(mono_pos) { monopow<2,3>(in, out); }
HARNESS(mono_neg) { monopow<-3,-2>(in, out); }
HARNESS(mono_mid) { monopow<-3,2>(in, out); }
