#include "common.hpp"
#include <boost/numeric/interval/ext/integer.hpp>
// runs EXPR (an interval), stores bounds at slots i,i+1 and at slot f whether it returned (1) or threw (2)
#define TRY(i,f,EXPR) try { I r_ = (EXPR); put(out,i,r_); OUT(char,f)=1; } catch (std::exception const &) { OUT(char,f)=2; OUT(T_,i)=1; OUT(T_,i+1)=1; }
#define BEGIN(T,P) typedef P<T>::type I; typedef T T_; I x=raw<I>(in,0);
// r = x op y into slots 0,1 (flag 4); x op= y into slots 2,3 (flag 5)
#define ASG(f,STMT) try { STMT; OUT(char,f)=1; } catch (std::exception const &) { OUT(char,f)=2; }
#define COMP(N,op,T,S,P) \
HARNESS(cii##N##_##S##_##T) { BEGIN(T,P) I y=raw<I>(in,2); TRY(0,4,x op y) ASG(5,x op##= y) put(out,2,x); } \
HARNESS(cis##N##_##S##_##T) { BEGIN(T,P) T s=IN(T,2); TRY(0,4,x op s) ASG(5,x op##= s) put(out,2,x); } \
HARNESS(cself##N##_##S##_##T) { BEGIN(T,P) I y=x; TRY(0,4,x op y) ASG(5,x op##= x) put(out,2,x); } \
HARNESS(clow##N##_##S##_##T) { BEGIN(T,P) T s=x.lower(); TRY(0,4,x op s) ASG(5,x op##= x.lower()) put(out,2,x); } \
HARNESS(cup##N##_##S##_##T) { BEGIN(T,P) T s=x.upper(); TRY(0,4,x op s) ASG(5,x op##= x.upper()) put(out,2,x); } \
HARNESS(cret##N##_##S##_##T) { BEGIN(T,P) I y=raw<I>(in,2); I z=x; TRY(0,4,(x op y) op y) ASG(5,(z op##= y) op##= y) put(out,2,z); } \
HARNESS(is##N##_##S##_##T) { BEGIN(T,P) T s=IN(T,2); TRY(0,4,x op s) TRY(2,5,x op I(s)) } \
HARNESS(si##N##_##S##_##T) { BEGIN(T,P) T s=IN(T,2); TRY(0,4,s op x) TRY(2,5,I(s) op x) } \
HARNESS(ik##N##_##S##_##T) { BEGIN(T,P) int k=IN(int,2); TRY(0,4,x op k) TRY(2,5,x op I(k)) } \
HARNESS(ki##N##_##S##_##T) { BEGIN(T,P) int k=IN(int,2); TRY(0,4,k op x) TRY(2,5,I(k) op x) }
#define FN(F,T,S,P) \
HARNESS(is##F##_##S##_##T) { BEGIN(T,P) T s=IN(T,2); TRY(0,4,(bn::F)(x,s)) TRY(2,5,(bn::F)(x,I(s))) } \
HARNESS(si##F##_##S##_##T) { BEGIN(T,P) T s=IN(T,2); TRY(0,4,(bn::F)(s,x)) TRY(2,5,(bn::F)(I(s),x)) }
#define NN(F,op,T,S,P) HARNESS(nn##F##_##S##_##T) { typedef P<T>::type I; typedef T T_; T s=IN(T,0), t=IN(T,1); TRY(0,4,il::F<I>(s,t)) TRY(2,5,I(s) op I(t)) }
#define ONE(T,S,P) COMP(add,+,T,S,P) COMP(sub,-,T,S,P) COMP(mul,*,T,S,P) COMP(div,/,T,S,P) FN(fmod,T,S,P) FN(min,T,S,P) FN(max,T,S,P) FN(hull,T,S,P) \
 NN(add,+,T,S,P) NN(sub,-,T,S,P) NN(mul,*,T,S,P) NN(div,/,T,S,P)
#define ALLT(S,P) ONE(float,S,P) ONE(double,S,P) ONE(ldouble,S,P)
ALLT(def,Idef) ALLT(sb,Isb)
