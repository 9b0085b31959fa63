#include "common.hpp"
#define OPS(T,S,P) \
HARNESS(part1_##S##_##T) { typedef P<T>::type I; bool b=true; put(out,0, il::division_part1(raw<I>(in,0),raw<I>(in,2),b)); OUT(char,2)=b; } \
HARNESS(part2_##S##_##T) { typedef P<T>::type I; put(out,0, il::division_part2(raw<I>(in,0),raw<I>(in,2),true)); } \
HARNESS(part2d_##S##_##T) { typedef P<T>::type I; put(out,0, il::division_part2(raw<I>(in,0),raw<I>(in,2))); } \
HARNESS(part2f_##S##_##T) { typedef P<T>::type I; put(out,0, il::division_part2(raw<I>(in,0),raw<I>(in,2),false)); } \
HARNESS(both_##S##_##T) { typedef P<T>::type I; I x=raw<I>(in,0), y=raw<I>(in,2); bool b; put(out,0, il::division_part1(x,y,b)); OUT(char,4)=b; \
  if (b) put(out,2, il::division_part2(x,y,b)); else { OUT(T,2)=1; OUT(T,3)=0; } }
#define ALLT(S,P) OPS(float,S,P) OPS(double,S,P) OPS(ldouble,S,P)
ALLT(def,Idef) ALLT(sb,Isb)
