#include "common.hpp"
#define RX raw<I>(in,0)
#define RY raw<I>(in,2)
#define ONE(T,S,P) NOW(T,S,P) HARNESS(widen_##S##_##T) { typedef P<T>::type I; put(out,0,bn::widen(RX,IN(T,2))); }
#define NOW(T,S,P) \
HARNESS(intersect_##S##_##T) { typedef P<T>::type I; put(out,0,bn::intersect(RX,RY)); } \
HARNESS(hull_##S##_##T) { typedef P<T>::type I; put(out,0,bn::hull(RX,RY)); } \
HARNESS(hullis_##S##_##T) { typedef P<T>::type I; put(out,0,bn::hull(RX,IN(T,2))); } \
HARNESS(hullsi_##S##_##T) { typedef P<T>::type I; put(out,0,bn::hull(IN(T,2),RX)); } \
HARNESS(hullss_##S##_##T) { typedef P<T>::type I; put(out,0,I::hull(IN(T,0),IN(T,1))); }
#define ALLT(S,P) ONE(float,S,P) ONE(double,S,P) ONE(ldouble,S,P) NOW(int,S,P)
ALLT(def,Idef) ALLT(ob,Iob) ALLT(sb,Isb)
HARNESS(hullfree_int) { put(out,0,bn::hull(IN(int,0),IN(int,1))); }
HARNESS(hullfree_float) { put(out,0,bn::hull(IN(float,0),IN(float,1))); }
HARNESS(hullfree_double) { put(out,0,bn::hull(IN(double,0),IN(double,1))); }
HARNESS(hullfree_ldouble) { put(out,0,bn::hull(IN(ldouble,0),IN(ldouble,1))); }
