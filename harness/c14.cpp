#include "ops.hpp"
template<class T, class R> inline void store(char *out, int i, R const &r) { res(out, i, r); }
template<class T> inline void store(char *out, int i, bool r) { OUT(T,i) = r ? T(1) : T(0); OUT(T,i+1) = T(0); }
// the operation from the mode of the caller, then again from another mode
template<class I, class OP> inline void twice(const char *in, char *out)
{
  typedef typename I::base_type T;
  int f = 1;
  try { store<T>(out, 0, OP::template run<I>(in)); } catch (...) { f = 2; OUT(T,0) = T(0); OUT(T,1) = T(0); }
  OUT(int,4) = std::fegetround(); OUT(int,6) = f;
  std::fesetround(IN(int,8));
  f = 1;
  try { store<T>(out, 2, OP::template run<I>(in)); } catch (...) { f = 2; OUT(T,2) = T(0); OUT(T,3) = T(0); }
  OUT(int,5) = std::fegetround(); OUT(int,7) = f;
}
#define H(N,S,T,P) HARNESS(N##_##S##_##T) { twice<P<T>::type, OP_##N>(in, out); }
#define Hfd(N,K,E) H(N,def,float,Idef)
#define Hdd(N,K,E) H(N,def,double,Idef)
#define Hld(N,K,E) H(N,def,ldouble,Idef)
#define Hfs(N,K,E) H(N,sb,float,Isb)
#define Hds(N,K,E) H(N,sb,double,Isb)
#define Hls(N,K,E) H(N,sb,ldouble,Isb)
ARITH_OPS(Hfd) ARITH_OPS(Hdd) ARITH_OPS(Hld) ARITH_OPS(Hfs) ARITH_OPS(Hds) ARITH_OPS(Hls)
PRED_OPS(Hfd) PRED_OPS(Hdd) PRED_OPS(Hld) PRED_OPS(Hfs) PRED_OPS(Hds) PRED_OPS(Hls)
CONV_OPS(Hfd) CONV_OPS(Hdd) CONV_OPS(Hld) CONV_OPS(Hfs) CONV_OPS(Hds) CONV_OPS(Hls)
#define Hfto(N,K,E) H(N,tos,float,Itos)
#define Hdto(N,K,E) H(N,tos,double,Itos)
#define Hlto(N,K,E) H(N,tos,ldouble,Itos)
#define Hfts(N,K,E) H(N,tsb,float,Itsb)
#define Hdts(N,K,E) H(N,tsb,double,Itsb)
#define Hlts(N,K,E) H(N,tsb,ldouble,Itsb)
TRANS_OPS(Hfto) TRANS_OPS(Hdto) TRANS_OPS(Hlto) TRANS_OPS(Hfts) TRANS_OPS(Hdts) TRANS_OPS(Hlts)
TRIG_OPS(Hfto) TRIG_OPS(Hdto) TRIG_OPS(Hlto) 
#define Hftss(N,K,E) H(N,tss,float,Itss)
#define Hdtss(N,K,E) H(N,tss,double,Itss)
#define Hltss(N,K,E) H(N,tss,ldouble,Itss)
TRIG_OPS(Hftss) TRIG_OPS(Hdtss) TRIG_OPS(Hltss)
