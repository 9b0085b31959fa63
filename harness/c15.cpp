#include "ops.hpp"
template<class T, class R> inline void store(char *out, int i, R const &r) { res(out, i, r); }
template<class T> inline void store(char *out, int i, bool r) { OUT(T,i) = r ? T(1) : T(0); OUT(T,i+1) = T(0); }
template<class T, class I, class OP> inline int attempt(const char *in, char *out, int i)
{
  try { store<T>(out, i, OP::template run<I>(in)); return 1; }
  catch (...) { OUT(T,i) = T(0); OUT(T,i+1) = T(0); return 2; }
}
// the protected operation, then the unprotected one twice under one rounding object, after a primitive that rounds
// down and after one that rounds up, each time followed by two further unprotected operations
template<class I, class OP> inline void unp(const char *in, char *out)
{
  typedef typename I::base_type T;
  typedef typename il::unprotect<I>::type R;
  T const p = IN(T,8), q = IN(T,9);
  OUT(int,12) = attempt<T,I,OP>(in, out, 0);
  put(out, 6, I(p,p,true) + I(q,q,true)); put(out, 8, I(p,p,true) * q);
  int m0 = std::fegetround();
  {
    typename I::traits_type::rounding rnd;
    OUT(T,10) = rnd.sub_down(p, q);
    OUT(int,13) = attempt<T,R,OP>(in, out, 2);
    put(out, 15, R(p,p,true) + R(q,q,true)); put(out, 17, R(p,p,true) * q);
    OUT(T,11) = rnd.add_up(p, q);
    OUT(int,14) = attempt<T,R,OP>(in, out, 4);
    put(out, 19, R(p,p,true) + R(q,q,true)); put(out, 21, R(p,p,true) * q);
  }
  OUT(int,23) = std::fegetround() == m0;
}
#define H(N,S,T,P) HARNESS(N##_##S##_##T) { unp<P<T>::type, OP_##N>(in, out); }
#define Hfd(N,K,E) H(N,def,float,Idef)
#define Hdd(N,K,E) H(N,def,double,Idef)
#define Hld(N,K,E) H(N,def,ldouble,Idef)
#define Hfs(N,K,E) H(N,sb,float,Isb)
#define Hds(N,K,E) H(N,sb,double,Isb)
#define Hls(N,K,E) H(N,sb,ldouble,Isb)
ARITH_OPS(Hfd) ARITH_OPS(Hdd) ARITH_OPS(Hld) ARITH_OPS(Hfs) ARITH_OPS(Hds) ARITH_OPS(Hls)
PRED_OPS(Hfd) PRED_OPS(Hdd) PRED_OPS(Hld) PRED_OPS(Hfs) PRED_OPS(Hds) PRED_OPS(Hls)
CONV_OPS(Hfd) CONV_OPS(Hdd) CONV_OPS(Hld) CONV_OPS(Hfs) CONV_OPS(Hds) CONV_OPS(Hls)
#define Hfto(N,K,E) H(N,tos,float,Itos)
#define Hdto(N,K,E) H(N,tos,double,Itos)
#define Hlto(N,K,E) H(N,tos,ldouble,Itos)
#define Hfts(N,K,E) H(N,tsb,float,Itsb)
#define Hdts(N,K,E) H(N,tsb,double,Itsb)
#define Hlts(N,K,E) H(N,tsb,ldouble,Itsb)
#define Hftss(N,K,E) H(N,tss,float,Itss)
#define Hdtss(N,K,E) H(N,tss,double,Itss)
#define Hltss(N,K,E) H(N,tss,ldouble,Itss)
TRANS_OPS(Hfto) TRANS_OPS(Hdto) TRANS_OPS(Hlto) TRANS_OPS(Hfts) TRANS_OPS(Hdts) TRANS_OPS(Hlts)
TRIG_OPS(Hfto) TRIG_OPS(Hdto) TRIG_OPS(Hlto) TRIG_OPS(Hftss) TRIG_OPS(Hdtss) TRIG_OPS(Hltss)
