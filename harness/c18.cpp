#include "common.hpp"
#define RX raw<I>(in,0)
#define ONE(T,S,P) \
HARNESS(width_##S##_##T) { typedef P<T>::type I; OUT(T,0)=bn::width(RX); } \
INTS(T,S,P) \
HARNESS(median_##S##_##T) { typedef P<T>::type I; OUT(T,0)=bn::median(RX); } \
HARNESS(bisect_##S##_##T) { typedef P<T>::type I; std::pair<I,I> p=bn::bisect(RX); put(out,0,p.first); put(out,2,p.second); }
#define INTS(T,S,P) \
HARNESS(norm_##S##_##T) { typedef P<T>::type I; OUT(T,0)=bn::norm(RX); } \
HARNESS(bounds_##S##_##T) { typedef P<T>::type I; I x=RX; OUT(T,0)=bn::lower(x); OUT(T,1)=bn::upper(x); OUT(T,2)=x.lower(); OUT(T,3)=x.upper(); } \
HARNESS(checked_##S##_##T) { typedef P<T>::type I; I x=RX; OUT(T,0)=bn::checked_lower(x); OUT(T,1)=bn::checked_upper(x); }
#define ALLT(S,P) ONE(float,S,P) ONE(double,S,P) ONE(ldouble,S,P) INTS(int,S,P)
ALLT(def,Idef) ALLT(ob,Iob) ALLT(sb,Isb)
