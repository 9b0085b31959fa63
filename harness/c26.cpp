#include "common.hpp"
// a base type none of the constants is specialised for
struct other { double v; other(int i=0): v(i) {} };
namespace boost { namespace numeric { namespace interval_lib { } } }
#define ONE(T,S,P) \
HARNESS(pi_##S##_##T) { typedef P<T>::type I; put(out,0, il::pi<I>()); } \
HARNESS(pih_##S##_##T) { typedef P<T>::type I; put(out,0, il::pi_half<I>()); } \
HARNESS(pit_##S##_##T) { typedef P<T>::type I; put(out,0, il::pi_twice<I>()); } \
HARNESS(cpi_##S##_##T) { OUT(T,0)=il::constants::pi_lower<T>(); OUT(T,1)=il::constants::pi_upper<T>(); } \
HARNESS(cpih_##S##_##T) { OUT(T,0)=il::constants::pi_half_lower<T>(); OUT(T,1)=il::constants::pi_half_upper<T>(); } \
HARNESS(cpit_##S##_##T) { OUT(T,0)=il::constants::pi_twice_lower<T>(); OUT(T,1)=il::constants::pi_twice_upper<T>(); }
ONE(float,def,Idef) ONE(double,def,Idef) ONE(ldouble,def,Idef) ONE(float,sb,Isb) ONE(double,sb,Isb) ONE(ldouble,sb,Isb) ONE(int,def,Idef)
#define GEN(F,G) HARNESS(F##_gen) { OUT(double,0)=il::constants::G##_lower<other>().v; OUT(double,1)=il::constants::G##_upper<other>().v; }
GEN(pi,pi) GEN(pih,pi_half) GEN(pit,pi_twice)
