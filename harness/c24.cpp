#include "ops.hpp"
template<class T, class R> inline void store(char *out, int i, R const &r) { res(out, i, r); }
#define H(N,S,T,P) HARNESS(N##_##S##_##T) { store<T>(out, 0, OP_##N::run<P<T>::type>(in)); }
#define Hfd(N,K,E) H(N,def,float,Idef) H(N,ob,float,Iob) H(N,ne,float,Ine) H(N,cn,float,Icn) H(N,nn,float,Inn) H(N,cne,float,Icne)
#define Hdd(N,K,E) H(N,def,double,Idef) H(N,ob,double,Iob) H(N,ne,double,Ine) H(N,cn,double,Icn) H(N,nn,double,Inn) H(N,cne,double,Icne)
#define Hld(N,K,E) H(N,def,ldouble,Idef) H(N,ob,ldouble,Iob) H(N,ne,ldouble,Ine) H(N,cn,ldouble,Icn) H(N,nn,ldouble,Inn) H(N,cne,ldouble,Icne)
#define Hi(N,K,E) H(N,def,int,Idef) H(N,ob,int,Iob) H(N,ne,int,Ine)
ARITH_OPS(Hi) ARITH_OPS(Hfd) ARITH_OPS(Hdd) ARITH_OPS(Hld) CONV_OPS(Hfd) CONV_OPS(Hdd) CONV_OPS(Hld) ROOT_OPS(Hfd) ROOT_OPS(Hdd) ROOT_OPS(Hld)
#define Htf(N,K,E) H(N,tos,float,Itos) H(N,tob,float,Itob)
#define Htd(N,K,E) H(N,tos,double,Itos) H(N,tob,double,Itob)
#define Htl(N,K,E) H(N,tos,ldouble,Itos) H(N,tob,ldouble,Itob)
TRANS_OPS(Htf) TRANS_OPS(Htd) TRANS_OPS(Htl) TRIG_OPS(Htf) TRIG_OPS(Htd) TRIG_OPS(Htl)
