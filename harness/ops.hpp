// The public operations of the library in one list: M(name, kind, expression) with
// I the interval type, T its base type, x, y intervals, s, t numbers.
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include "common.hpp"
#define ARITH_OPS(M) \
 M(add,a,x+y) M(sub,a,x-y) M(mul,a,x*y) M(div,a,x/y) \
 M(adds,a,x+s) M(sadd,a,s+x) M(subs,a,x-s) M(ssub,a,s-x) M(muls,a,x*s) M(smul,a,s*x) M(divs,a,x/s) M(sdiv,a,s/x) \
 M(neg,a,-x) M(pos,a,+x) \
 M(addas,a,(I(x)+=y)) M(subas,a,(I(x)-=y)) M(mulas,a,(I(x)*=y)) M(divas,a,(I(x)/=y)) \
 M(addass,a,(I(x)+=s)) M(subass,a,(I(x)-=s)) M(mulass,a,(I(x)*=s)) M(divass,a,(I(x)/=s)) \
 M(abs,a,abs(x)) M(square,a,square(x)) M(sqrt,a,sqrt(x)) M(inv,a,il::multiplicative_inverse(x)) \
 M(pow0,a,pow(x,0)) M(pow1,a,pow(x,1)) M(pow2,a,pow(x,2)) M(pow3,a,pow(x,3)) M(pow6,a,pow(x,6)) M(pown1,a,pow(x,-1)) M(pown2,a,pow(x,-2)) \
 M(fmod,a,fmod(x,y)) M(fmods,a,fmod(x,s)) M(sfmod,a,fmod(s,x)) \
 M(part1,a,part1(x,y)) M(part2,a,il::division_part2(x,y)) M(part2f,a,il::division_part2(x,y,false)) \
 M(hull,a,hull(x,y)) M(hulls,a,hull(x,s)) M(shull,a,hull(s,x)) M(shullt,a,I::hull(s,t)) M(intersect,a,intersect(x,y)) \
 M(widen,a,widen(x,s)) M(bis1,a,bisect(x).first) M(bis2,a,bisect(x).second) \
 M(median,a,median(x)) M(width,a,width(x)) M(norm,a,norm(x)) \
 M(min,a,min(x,y)) M(max,a,max(x,y)) M(mins,a,min(x,s)) M(smin,a,min(s,x)) M(maxs,a,max(x,s)) M(smax,a,max(s,x)) \
 M(nadd,a,il::add<I>(s,t)) M(nsub,a,il::sub<I>(s,t)) M(nmul,a,il::mul<I>(s,t)) M(ndiv,a,il::div<I>(s,t)) \
 M(ctor,a,I(s,t)) M(ctor1,a,I(s)) M(assign,a,assigned<I>(s,t)) M(asg,a,(I(x)=s)) M(pi,a,il::pi<I>()) M(pi2,a,il::pi_half<I>()) \
 M(copy,a,I(x))
#define CONV_OPS(M) \
 M(cvf,a,I(IN(float,6))) M(cvd,a,I(IN(double,6))) M(cvl,a,I(IN(ldouble,6))) M(cvi,a,I(IN(int,7))) M(cvas,a,(I(x)=IN(ldouble,6)))
#define PRED_OPS(M) \
 M(lt,a,(x<y)) M(le,a,(x<=y)) M(gt,a,(x>y)) M(ge,a,(x>=y)) M(eq,a,(x==y)) M(ne,a,(x!=y)) M(lts,a,(x<s)) M(eqs,a,(x==s)) \
 M(in,a,bn::in(s,x)) M(zin,a,zero_in(x)) M(emp,a,empty(x)) M(sing,a,singleton(x)) M(equ,a,equal(x,y)) M(subset,a,subset(x,y)) M(psubset,a,proper_subset(x,y)) M(overlap,a,overlap(x,y))
#define TRANS_OPS(M) \
 M(exp,a,exp(x)) M(log,a,log(x)) M(sinh,a,sinh(x)) M(cosh,a,cosh(x)) M(tanh,a,tanh(x)) M(asin,a,asin(x)) M(acos,a,acos(x)) M(atan,a,atan(x)) \
 M(asinh,a,asinh(x)) M(acosh,a,acosh(x)) M(atanh,a,atanh(x))
#define TRIG_OPS(M) M(cos,a,cos(x)) M(sin,a,sin(x)) M(tan,a,tan(x))
#define ROOT_OPS(M) M(root2,a,nth_root(x,2)) M(root3,a,nth_root(x,3)) M(root6,a,nth_root(x,6))
template<class I> inline I part1(I const &x, I const &y)
{ bool b; I r = il::division_part1(x, y, b); if (b) return il::division_part2(x, y, b); return r; }
template<class I> inline I assigned(typename I::base_type const &s, typename I::base_type const &t)
{ I r; r.assign(s, t); return r; }
#define DEF_OP(N,K,E) struct OP_##N { template<class I> static auto run(const char *in) { typedef typename I::base_type T; using std::min; using std::max; \
  I x = raw<I>(in,0), y = raw<I>(in,2); T const s = IN(T,4), t = IN(T,5); (void)x; (void)y; (void)s; (void)t; return E; } };
ARITH_OPS(DEF_OP) PRED_OPS(DEF_OP) TRANS_OPS(DEF_OP) TRIG_OPS(DEF_OP) CONV_OPS(DEF_OP) ROOT_OPS(DEF_OP)
template<class T> inline void res(char *out, int i, T const &v) { OUT(T,i) = v; OUT(T,i+1) = v; }
template<class T, class P> inline void res(char *out, int i, bn::interval<T,P> const &v) { put(out, i, v); }
template<class T> inline void resb(char *out, int i, T const &v) { res(out, i, v); }
#endif
