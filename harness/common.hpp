// Common part of the verification harnesses.  Each entry point has the C signature
//   void h(const char *in, char *out)
// with one 16-byte slot per argument and per result.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/compare/certain.hpp>
#include <boost/numeric/interval/compare/possible.hpp>
#include <boost/numeric/interval/compare/lexicographic.hpp>
#include <boost/numeric/interval/compare/set.hpp>
#include <boost/numeric/interval/compare/tribool.hpp>
#include <boost/numeric/interval/compare/explicit.hpp>
#include <boost/numeric/interval/limits.hpp>
#include <cfenv>
namespace bn = boost::numeric;
namespace il = boost::numeric::interval_lib;
#define IN(T,i)  (*(const T*)(in+16*(i)))
#define OUT(T,i) (*(T*)(out+16*(i)))
#define HARNESS(name) extern "C" void name(const char *in, char *out)
typedef long double ldouble;
// rounding policies by short name
template<class T> struct R_opp { typedef il::save_state<il::rounded_arith_opp<T> > type; };
template<class T> struct R_std { typedef il::save_state<il::rounded_arith_std<T> > type; };
template<class T> struct R_topp { typedef il::save_state<il::rounded_transc_opp<T> > type; };
template<class T> struct R_tstd { typedef il::save_state<il::rounded_transc_std<T> > type; };
template<> struct R_opp<int> { typedef il::rounded_math<int> type; };       // integers need no rounding control
template<> struct R_std<int> { typedef il::rounded_math<int> type; };
template<class T> struct R_exact { typedef il::save_state_nothing<il::rounded_arith_exact<T> > type; };
// interval types by (base type, rounding, checking)
template<class T, template<class> class R, class C> struct mk { typedef bn::interval<T, il::policies<typename R<T>::type, C> > type; };
template<class T> struct Idef { typedef bn::interval<T> type; };                                   // the default type
template<class T> struct Iob  : mk<T, R_opp,  il::checking_base<T> > {};
template<class T> struct Isb  : mk<T, R_std,  il::checking_base<T> > {};
template<class T> struct Itob : mk<T, R_topp, il::checking_base<T> > {};
template<class T> struct Itsb : mk<T, R_tstd, il::checking_base<T> > {};
template<class T> struct Itos : mk<T, R_topp, il::checking_strict<T> > {};
template<class T> struct Itss : mk<T, R_tstd, il::checking_strict<T> > {};
template<class T> struct Icn  : mk<T, R_opp,  il::checking_catch_nan<T> > {};
template<class T> struct Ine  : mk<T, R_opp,  il::checking_no_empty<T> > {};
template<class T> struct Inn  : mk<T, R_opp,  il::checking_no_nan<T> > {};
template<class T> struct Icne : mk<T, R_opp,  il::checking_catch_nan<T, il::checking_no_empty<T> > > {};
template<class T> struct Iex  : mk<T, R_exact, il::checking_base<T> > {};
// build an interval with exactly these bounds, as results of operations are
template<class I> inline I raw(const char *in, int i)
{ typedef typename I::base_type T; return I(IN(T,i), IN(T,i+1), true); }
template<class I> inline void put(char *out, int i, I const &x)
{ typedef typename I::base_type T; OUT(T,i) = x.lower(); OUT(T,i+1) = x.upper(); }
#endif
