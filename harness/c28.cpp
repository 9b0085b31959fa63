#include "common.hpp"
#define NL(P,T) std::numeric_limits<typename P<T>::type>
#define V(S,N,T,P) HARNESS(N##_##S##_##T) { put(out,0,std::numeric_limits<P<T>::type>::N()); }
#define VP(S,N,T,P) HARNESS(N##_##S##_##T) { put(out,0,(std::numeric_limits<P<T>::type>::N)()); }
#define SAME(J,M) OUT(int,J) = (L::M == B::M);
#define STAT(S,T,P) HARNESS(stat_##S##_##T) { typedef std::numeric_limits<P<T>::type> L; typedef std::numeric_limits<T> B; \
 OUT(int,0) = L::is_iec559; OUT(int,1) = L::round_style; OUT(int,2) = std::round_indeterminate; \
 SAME(3,is_specialized) SAME(4,digits) SAME(5,digits10) SAME(6,is_signed) SAME(7,is_integer) SAME(8,is_exact) SAME(9,radix) SAME(10,min_exponent) \
 SAME(11,min_exponent10) SAME(12,max_exponent) SAME(13,max_exponent10) SAME(14,has_infinity) SAME(15,has_quiet_NaN) SAME(16,has_signaling_NaN) \
 SAME(17,has_denorm) SAME(18,has_denorm_loss) SAME(19,is_bounded) SAME(20,is_modulo) SAME(21,traps) SAME(22,tinyness_before) }
#define ALL(S,T,P) VP(S,min,T,P) VP(S,max,T,P) V(S,epsilon,T,P) V(S,denorm_min,T,P) V(S,infinity,T,P) V(S,quiet_NaN,T,P) V(S,signaling_NaN,T,P) STAT(S,T,P)
#define TYPE(T) ALL(def,T,Idef) ALL(ob,T,Iob) ALL(tsb,T,Itsb) ALL(tos,T,Itos) ALL(cn,T,Icn) ALL(ne,T,Ine) ALL(nn,T,Inn) ALL(cne,T,Icne)
TYPE(float) TYPE(double) TYPE(ldouble)
#define ITYPE(T) VP(def,min,T,Idef) VP(def,max,T,Idef) V(def,epsilon,T,Idef) V(def,denorm_min,T,Idef) STAT(def,T,Idef)
typedef long long llong; typedef unsigned uint;
ITYPE(int) ITYPE(llong) ITYPE(uint)
