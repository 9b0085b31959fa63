#ifndef __x86_64__
# define __x86_64__ 1
#endif
#ifdef RESTORE_GNUC
# define __GNUC__ 4
#endif
#include <boost/numeric/interval.hpp>
namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;
#define IN(T,i)  (*(const T*)(in+16*(i)))
#define OUT(T,i) (*(T*)(out+16*(i)))
#define HARNESS(name) extern "C" void name(const char *in, char *out)
typedef long double ldouble;
template<class C> inline void turn(C &c, int n)
{ if (n == 0) c.to_nearest(); else if (n == 1) c.downward(); else if (n == 2) c.upward(); else c.toward_zero(); }
// a request for a direction
template<class C> inline void dir(const char *in, char *out)
{ reg = IN(u64,0); fpsync(); C c; turn(c, IN(int,1)); OUT(int,0) = std::fegetround(); OUT(u64,1) = reg; }
// saving, switching twice, restoring
template<class C> inline void save(const char *in, char *out)
{
  reg = IN(u64,0); fpsync(); C c; typename C::rounding_mode m; c.get_rounding_mode(m);
  turn(c, IN(int,1)); turn(c, IN(int,2)); c.set_rounding_mode(m);
  OUT(int,0) = std::fegetround(); OUT(u64,1) = reg;
}
// base operations of the rounding class: down and up, and what the hardware gives in these directions
#define OPS(X) \
  X(add, r.add_down(a,b), r.add_up(a,b), a+b) X(sub, r.sub_down(a,b), r.sub_up(a,b), a-b) X(mul, r.mul_down(a,b), r.mul_up(a,b), a*b) \
  X(div, r.div_down(a,b), r.div_up(a,b), a/b) X(sqrt, r.sqrt_down(a), r.sqrt_up(a), std::sqrt(a)) X(int, r.int_down(a), r.int_up(a), std::rint(a)) \
  X(conv, r.conv_down(n), r.conv_up(n), T(n))
#define OP(N,D,U,E) template<class R, class T> inline void op_##N(const char *in, char *out) \
{ T a = IN(T,1), b = IN(T,2); int n = IN(int,3); (void)a; (void)b; (void)n; reg = IN(u64,0); fpsync(); \
  { R r; OUT(T,0) = D; OUT(T,1) = U; } \
  OUT(u64,4) = reg; OUT(int,5) = std::fegetround(); \
  std::fesetround(FE_DOWNWARD); { volatile T v = E; OUT(T,2) = v; } std::fesetround(FE_UPWARD); { volatile T v = E; OUT(T,3) = v; } fpsync(); }
OPS(OP)
// whole interval operations: what they leave in the register
template<class I> inline I arg(const char *in, int i) { typedef typename I::base_type T; return I(IN(T,i), IN(T,i+1), true); }
#define IOPS(X) X(add, x + y) X(mul, x * y) X(div, x / y) X(sqrt, sqrt(x)) X(square, square(x)) X(mid, I(median(x)))
#define IOP(N,E) template<class I> inline void iop_##N(const char *in, char *out) \
{ typedef typename I::base_type T; I x = arg<I>(in,1), y = arg<I>(in,3), z; (void)y; reg = IN(u64,0); fpsync(); int f = 0; \
  try { z = E; } catch (...) { f = 1; } OUT(T,0) = z.lower(); OUT(u64,1) = reg; OUT(int,2) = std::fegetround(); OUT(int,3) = f; }
IOPS(IOP)
#ifndef CONTROL
# define CONTROL il::rounding_control
#endif
template<class T> struct RS { typedef il::save_state<il::rounded_arith_std<T, CONTROL<T> > > type; };
template<class T> struct RO { typedef il::save_state<il::rounded_arith_opp<T, CONTROL<T> > > type; };
template<class T, class R> struct Ibk { typedef bn::interval<T, il::policies<R, il::checking_base<T> > > type; };
#define ALL(T) HARNESS(dir_##T) { dir<CONTROL<T> >(in, out); } HARNESS(save_##T) { save<CONTROL<T> >(in, out); }
#define IALL(N,E) HARNESS(i##N##_std_float) { iop_##N<Ibk<float,RS<float>::type>::type>(in, out); } HARNESS(i##N##_opp_float) { iop_##N<Ibk<float,RO<float>::type>::type>(in, out); } \
  HARNESS(i##N##_std_double) { iop_##N<Ibk<double,RS<double>::type>::type>(in, out); } HARNESS(i##N##_opp_double) { iop_##N<Ibk<double,RO<double>::type>::type>(in, out); } \
  HARNESS(i##N##_std_ldouble) { iop_##N<Ibk<ldouble,RS<ldouble>::type>::type>(in, out); } HARNESS(i##N##_opp_ldouble) { iop_##N<Ibk<ldouble,RO<ldouble>::type>::type>(in, out); }
#define OALL(N,D,U,E) HARNESS(o##N##_std_float) { op_##N<RS<float>::type,float>(in, out); } HARNESS(o##N##_opp_float) { op_##N<RO<float>::type,float>(in, out); } \
  HARNESS(o##N##_std_double) { op_##N<RS<double>::type,double>(in, out); } HARNESS(o##N##_opp_double) { op_##N<RO<double>::type,double>(in, out); } \
  HARNESS(o##N##_std_ldouble) { op_##N<RS<ldouble>::type,ldouble>(in, out); } HARNESS(o##N##_opp_ldouble) { op_##N<RO<ldouble>::type,ldouble>(in, out); }
ALL(float) ALL(double) ALL(ldouble)
OPS(OALL)
IOPS(IALL)
