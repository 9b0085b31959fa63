#include "common.hpp"
typedef long long llong;
#define RX raw<I>(in,0)
#define RY raw<I>(in,2)
#define O2(N,T,E) HARNESS(N##_##T) { typedef bn::interval<T> I; I x = raw<I>(in,0), y = raw<I>(in,2); put(out,0,E); }
#define OS(N,T,E) HARNESS(N##_##T) { typedef bn::interval<T> I; I x = raw<I>(in,0); T s = IN(T,2); put(out,0,E); }
#define O1(N,T,E) HARNESS(N##_##T) { typedef bn::interval<T> I; I x = raw<I>(in,0); put(out,0,E); }
#define NUM(N,T,E) HARNESS(N##_##T) { typedef bn::interval<T> I; I x = raw<I>(in,0); OUT(T,0) = E; }
#define B(N,E) try { OUT(char,N) = (E) ? 1 : 0; } catch (il::comparison_error const &) { OUT(char,N) = 2; }
#define PW(K,T) O1(pow##K,T,pow(x,K))
#define ALL(T) O2(add,T,x+y) O2(sub,T,x-y) O2(mul,T,x*y) OS(adds,T,x+s) OS(sadd,T,s+x) OS(subs,T,x-s) OS(ssub,T,s-x) OS(muls,T,x*s) OS(smul,T,s*x) \
 O2(addas,T,(x+=y)) O2(subas,T,(x-=y)) O2(mulas,T,(x*=y)) OS(addass,T,(x+=s)) OS(subass,T,(x-=s)) OS(mulass,T,(x*=s)) \
 O1(neg,T,-x) O1(abs,T,abs(x)) O1(square,T,square(x)) O2(min,T,(bn::min)(x,y)) O2(max,T,(bn::max)(x,y)) OS(mins,T,(bn::min)(x,s)) OS(smin,T,(bn::min)(s,x)) OS(maxs,T,(bn::max)(x,s)) OS(smax,T,(bn::max)(s,x)) \
 O2(hull,T,hull(x,y)) OS(hulls,T,hull(x,s)) O2(intersect,T,intersect(x,y)) OS(widen,T,widen(x,s)) \
 PW(0,T) PW(1,T) PW(2,T) PW(3,T) PW(4,T) PW(5,T) NUM(width,T,width(x)) NUM(norm,T,norm(x)) \
HARNESS(preds_##T) { typedef bn::interval<T> I; I x = RX, y = RY; T s = IN(T,4); \
  OUT(char,0)=zero_in(x); OUT(char,1)=bn::in(s,x); OUT(char,2)=subset(x,y); OUT(char,3)=proper_subset(x,y); OUT(char,4)=overlap(x,y); OUT(char,5)=singleton(x); OUT(char,6)=equal(x,y); OUT(char,7)=empty(x); } \
HARNESS(cmp_##T) { typedef bn::interval<T> I; I x = RX, y = RY; B(0,x<y) B(1,x<=y) B(2,x>y) B(3,x>=y) B(4,x==y) B(5,x!=y) } \
HARNESS(cmps_##T) { typedef bn::interval<T> I; I x = RX; T s = IN(T,2); B(0,x<s) B(1,x<=s) B(2,x>s) B(3,x>=s) B(4,x==s) B(5,x!=s) }
ALL(int) ALL(llong)
