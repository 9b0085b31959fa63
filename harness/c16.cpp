#include "common.hpp"
#define RX raw<I>(in,0)
#define RY raw<J>(in,2)
#define B(v) OUT(char,0)=(v)
#define ONE(T,S,P,Q) \
HARNESS(empty_##S##_##T) { typedef P<T>::type I; B(bn::empty(RX)); } \
HARNESS(singleton_##S##_##T) { typedef P<T>::type I; B(bn::singleton(RX)); } \
HARNESS(zeroin_##S##_##T) { typedef P<T>::type I; B(bn::zero_in(RX)); } \
HARNESS(inzero_##S##_##T) { typedef P<T>::type I; B(bn::in_zero(RX)); } \
HARNESS(in_##S##_##T) { typedef P<T>::type I; B(bn::in(IN(T,2),RX)); } \
HARNESS(subset_##S##_##T) { typedef P<T>::type I; typedef I J; B(bn::subset(RX,RY)); } \
HARNESS(proper_##S##_##T) { typedef P<T>::type I; typedef I J; B(bn::proper_subset(RX,RY)); } \
HARNESS(overlap_##S##_##T) { typedef P<T>::type I; typedef I J; B(bn::overlap(RX,RY)); } \
HARNESS(equal_##S##_##T) { typedef P<T>::type I; typedef I J; B(bn::equal(RX,RY)); } \
HARNESS(properm_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; B(bn::proper_subset(RX,RY)); } \
HARNESS(overlapm_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; B(bn::overlap(RX,RY)); } \
HARNESS(equalm_##S##_##T) { typedef P<T>::type I; typedef Q<T>::type J; B(bn::equal(RX,RY)); }
#define ALLT(S,P,Q) ONE(float,S,P,Q) ONE(double,S,P,Q) ONE(ldouble,S,P,Q) ONE(int,S,P,Q)
ALLT(def,Idef,Iob) ALLT(ob,Iob,Isb) ALLT(sb,Isb,Idef)
