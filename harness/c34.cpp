// Two threads: while one is in an operation, another runs the same operation on other intervals from start to end.
// The build puts a call of verif_point() before every access to a variable that the threads share; the input slot 16 says at which of
// these the other thread runs.  Afterwards the operation runs once more, undisturbed.
#include "ops.hpp"
extern "C" { static int t_on, t_count, t_held; static void (*t_other)(const char*); static const char *t_in;
void verif_point() { if (!t_on || t_held || --t_count != 0) return;
  t_on = 0; int m = std::fegetround(); std::fesetround(FE_TONEAREST); t_other(t_in + 16 * 8); std::fesetround(m); t_on = 1; }
void verif_hold(int k) { t_held += k; } }
template<class T, class R> inline void store(char *out, int i, R const &r) { res(out, i, r); }
template<class T> inline void store(char *out, int i, bool r) { OUT(T,i) = r ? T(1) : T(0); OUT(T,i+1) = T(0); }
template<class I, class OP> void other(const char *in) { char o[64]; try { store<typename I::base_type>(o, 0, OP::template run<I>(in)); } catch (...) {} }
template<class I, class OP> inline void both(const char *in, char *out)
{
  typedef typename I::base_type T;
  t_in = in; t_other = &other<I, OP>; t_count = IN(int,16); t_held = 0; t_on = 1;
  int f = 1;
  try { store<T>(out, 0, OP::template run<I>(in)); } catch (...) { f = 2; OUT(T,0) = T(0); OUT(T,1) = T(0); }
  OUT(int,4) = f; t_on = 0;
  f = 1;
  try { store<T>(out, 2, OP::template run<I>(in)); } catch (...) { f = 2; OUT(T,2) = T(0); OUT(T,3) = T(0); }
  OUT(int,5) = f;
}
#define H(N,S,T,P) HARNESS(N##_##S##_##T) { both<P<T>::type, OP_##N>(in, out); }
#define Hfs(N,K,E) H(N,sb,float,Isb)
#define Hdd(N,K,E) H(N,def,double,Idef)
#define Hls(N,K,E) H(N,ob,ldouble,Iob)
ARITH_OPS(Hfs) ARITH_OPS(Hdd) ARITH_OPS(Hls) PRED_OPS(Hfs) PRED_OPS(Hdd) PRED_OPS(Hls) CONV_OPS(Hfs) CONV_OPS(Hdd) CONV_OPS(Hls)
#define Hft(N,K,E) H(N,tsb,float,Itsb)
#define Hdt(N,K,E) H(N,tos,double,Itos)
#define Hlt(N,K,E) H(N,tob,ldouble,Itob)
TRANS_OPS(Hft) TRANS_OPS(Hdt) TRANS_OPS(Hlt)
#define Hfto(N,K,E) H(N,tos,float,Itos)
#define Hlto(N,K,E) H(N,tos,ldouble,Itos)
TRIG_OPS(Hfto) TRIG_OPS(Hdt) TRIG_OPS(Hlto)
