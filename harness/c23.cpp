#include "common.hpp"
typedef long long llong; typedef unsigned long long ullong; typedef unsigned int uint; typedef short int sint;
#define RX(J) raw<J>(in,0)
// from numbers of another type U
#define FROM(U,T,S,P) \
HARNESS(ctor_##U##_##S##_##T) { typedef P<T>::type I; I x(IN(U,0)); put(out,0,x); } \
HARNESS(asg_##U##_##S##_##T) { typedef P<T>::type I; I x(T(1)); x=IN(U,0); put(out,0,x); } \
HARNESS(pair_##U##_##S##_##T) { typedef P<T>::type I; I x(IN(U,0),IN(U,1)); put(out,0,x); }
// from intervals over U
#define FROMI(U,T,S,P,R,Q) \
HARNESS(ictor_##R##U##_##S##_##T) { typedef P<T>::type I; typedef Q<U>::type J; J y=RX(J); I x(y); put(out,0,x); } \
HARNESS(iasg_##R##U##_##S##_##T) { typedef P<T>::type I; typedef Q<U>::type J; J y=RX(J); I x(T(1)); x=y; put(out,0,x); }
#define OWN(T,S,P) \
HARNESS(assign_##S##_##T) { typedef P<T>::type I; I x(T(1)); x.assign(IN(T,0),IN(T,1)); put(out,0,x); } \
HARNESS(dflt_##S##_##T) { typedef P<T>::type I; I x; put(out,0,x); } \
HARNESS(empty_##S##_##T) { typedef P<T>::type I; put(out,0,I::empty()); } \
HARNESS(whole_##S##_##T) { typedef P<T>::type I; put(out,0,I::whole()); }
#define ONE(T,S,P,Q) OWN(T,S,P) FROM(sint,T,S,P) FROM(int,T,S,P) FROM(uint,T,S,P) FROM(llong,T,S,P) FROM(ullong,T,S,P) FROM(float,T,S,P) FROM(double,T,S,P) FROM(ldouble,T,S,P) \
 FROMI(int,T,S,P,s,P) FROMI(int,T,S,P,o,Q) FROMI(float,T,S,P,s,P) FROMI(double,T,S,P,s,P) FROMI(ldouble,T,S,P,s,P) FROMI(float,T,S,P,o,Q) FROMI(double,T,S,P,o,Q) FROMI(ldouble,T,S,P,o,Q)
#define ALLT(S,P,Q) ONE(float,S,P,Q) ONE(double,S,P,Q) ONE(ldouble,S,P,Q) OWN(int,S,P) FROM(sint,int,S,P) FROM(int,int,S,P) FROMI(int,int,S,P,s,P) FROMI(int,int,S,P,o,Q)
ALLT(def,Idef,Iob) ALLT(ob,Iob,Isb) ALLT(sb,Isb,Idef)
HARNESS(mixpair_double) { typedef Idef<double>::type I; I x(IN(int,0),IN(double,1)); put(out,0,x); }
HARNESS(mixpair2_double) { typedef Idef<double>::type I; I x(IN(float,0),IN(int,1)); put(out,0,x); }
HARNESS(mixpair3_float) { typedef Idef<float>::type I; I x(IN(float,0),IN(double,1)); put(out,0,x); }
// arguments that are bounds of the assigned interval itself
#define AL(N,STMT) template<class I> inline void alias_##N(const char *in, char *out) { typedef typename I::base_type T; I x = raw<I>(in,0); T s = IN(T,2); (void)s; STMT; put(out,0,x); }
AL(us, x.assign(x.upper(), s)) AL(sl, x.assign(s, x.lower())) AL(ls, x.assign(x.lower(), s)) AL(su, x.assign(s, x.upper())) AL(lu, x.assign(x.lower(), x.upper())) AL(uu, x.assign(x.upper(), x.upper())) AL(ll, x.assign(x.lower(), x.lower()))
AL(l, x = x.lower()) AL(u, x = x.upper()) AL(x, x = *&x)
#define AH(N,T,S,P) HARNESS(alias_##N##_##S##_##T) { alias_##N<P<T>::type>(in, out); }
#define AO(T,S,P) AH(us,T,S,P) AH(sl,T,S,P) AH(ls,T,S,P) AH(su,T,S,P) AH(lu,T,S,P) AH(uu,T,S,P) AH(ll,T,S,P) AH(l,T,S,P) AH(u,T,S,P) AH(x,T,S,P)
#define AA(S,P) AO(float,S,P) AO(double,S,P) AO(ldouble,S,P) AO(int,S,P)
AA(def,Idef) AA(sb,Isb)
