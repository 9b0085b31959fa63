// A checking policy of which nothing is known but its contract: the empty interval is the pair (e1,e2),
// nan() is v, and p and n stand for the infinities; all five are inputs.  Each operation also runs with the basic checking policy.
#include "ops.hpp"
static const char *sy; // the inputs from slot 8 on
template<class T> struct C_sym {
 static T const &at(int i) { return *(const T*)(sy + 16 * i); }
 static T pos_inf() { return at(2); } static T neg_inf() { return at(3); } static T nan() { return at(4); }
 static bool is_nan(T const &x) { return x != x; }
 static T empty_lower() { return at(0); } static T empty_upper() { return at(1); }
 static bool is_empty(T const &l, T const &u) { return l == at(0) && u == at(1); } };
template<class T> struct Isy : mk<T, R_opp, C_sym<T> > {};
template<class T> struct Itsy : mk<T, R_topp, C_sym<T> > {};
template<class T> inline void store(char *out, int i, bool r) { OUT(T,i) = r ? T(1) : T(0); OUT(T,i+1) = T(0); }
template<class T, class R> inline void store(char *out, int i, R const &r) { res(out, i, r); }
template<class I, class OP> inline void once(const char *in, char *out, int i)
{ typedef typename I::base_type T; int f = 1;
  try { store<T>(out, i, OP::template run<I>(in)); } catch (il::comparison_error const &) { f = 2; OUT(T,i) = T(0); OUT(T,i+1) = T(0); }
  OUT(int,4+i/2) = f; }
#define H(N,T,P,B) HARNESS(N##_##T) { sy = in + 16 * 8; once<P<T>::type, OP_##N>(in, out, 0); once<B<T>::type, OP_##N>(in, out, 2); }
#define Hf(N,K,E) H(N,float,Isy,Iob)
#define Hd(N,K,E) H(N,double,Isy,Iob)
#define Hl(N,K,E) H(N,ldouble,Isy,Iob)
ARITH_OPS(Hf) ARITH_OPS(Hd) ARITH_OPS(Hl) PRED_OPS(Hf) PRED_OPS(Hd) PRED_OPS(Hl)
#define Tf(N,K,E) H(N,float,Itsy,Itob)
#define Td(N,K,E) H(N,double,Itsy,Itob)
#define Tl(N,K,E) H(N,ldouble,Itsy,Itob)
TRANS_OPS(Tf) TRANS_OPS(Td) TRANS_OPS(Tl)
// comparisons of every kind, also between types of different checking policies, and with numbers
static inline int val(bool b) { return b; }
static inline int val(boost::logic::tribool b) { return b.value; }
#define R1(J,E) r = 7; try { r = val(E); } catch (il::comparison_error const &) {} OUT(int,J) = r;
#define ALL6(X,Y) R1(0,X < Y) R1(1,X <= Y) R1(2,X > Y) R1(3,X >= Y) R1(4,X == Y) R1(5,X != Y)
#define ALL4(X,Y) R1(0,X < Y) R1(1,X > Y) R1(2,X == Y) R1(3,X != Y)
#define CMPK(NAME,NSP,T,ALL) \
 HARNESS(cmp_##NAME##_same_##T) { sy = in + 16 * 8; NSP Isy<T>::type x = raw<Isy<T>::type>(in,0), y = raw<Isy<T>::type>(in,2); int r; ALL6(x,y) } \
 HARNESS(cmp_##NAME##_mix_##T) { sy = in + 16 * 8; NSP Isy<T>::type x = raw<Isy<T>::type>(in,0); Iob<T>::type y = raw<Iob<T>::type>(in,2); int r; ALL(x,y) } \
 HARNESS(cmp_##NAME##_xim_##T) { sy = in + 16 * 8; NSP Isy<T>::type x = raw<Isy<T>::type>(in,0); Iob<T>::type y = raw<Iob<T>::type>(in,2); int r; ALL(y,x) } \
 HARNESS(cmp_##NAME##_num_##T) { sy = in + 16 * 8; NSP Isy<T>::type x = raw<Isy<T>::type>(in,0); T s = IN(T,4); int r; ALL6(x,s) }
#define CMPS(T) CMPK(default,,T,ALL6) CMPK(certain,using namespace il::compare::certain;,T,ALL6) CMPK(possible,using namespace il::compare::possible;,T,ALL6) \
CMPK(lexicographic,using namespace il::compare::lexicographic;,T,ALL6) CMPK(tribool,using namespace il::compare::tribool;,T,ALL6) CMPK(set,using namespace il::compare::set;,T,ALL4) \
HARNESS(rel_##T) { sy = in + 16 * 8; Isy<T>::type x = raw<Isy<T>::type>(in,0); Iob<T>::type y = raw<Iob<T>::type>(in,2); \
 OUT(int,0) = overlap(x, y); OUT(int,1) = overlap(y, x); OUT(int,2) = proper_subset(x, y); OUT(int,3) = proper_subset(y, x); OUT(int,4) = equal(x, y); OUT(int,5) = equal(y, x); } \
HARNESS(conv_##T) { sy = in + 16 * 8; typedef Isy<T>::type C; typedef Iob<T>::type B; C x = raw<C>(in,0); put(out, 0, B(x)); B b(T(0)); b = x; put(out, 2, b); \
 B y = raw<B>(in,2); put(out, 4, C(y)); C c = raw<C>(in,0); c = y; put(out, 6, c); put(out, 8, C::empty()); put(out, 10, C::whole()); \
 T const s = IN(T,4), t = IN(T,5); C d(T(0), T(0), true); d = s; put(out, 12, d); d.assign(s, t); put(out, 14, d); }
CMPS(float) CMPS(double) CMPS(ldouble)
