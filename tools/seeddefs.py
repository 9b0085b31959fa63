SEEDS=[]
def seed(id,prop,needs,what,edits,demo,pre=None):
    d=dict(id=id,property=prop,needs=needs,what=what,edits=edits,demo=demo)
    if pre: d['pre']=pre
    SEEDS.append(d)
BR='BOOST_PREVENT_MACRO_SUBSTITUTION'
seed('mul-zero-times-halfline','C02','a non-negative left factor touching zero or above with an infinite bound, right factor exactly zero',
 'P * Z is computed with the rounded products instead of the exact zero, so an infinite bound gives NaN',
 [('arith.hpp','''        else                    // P * Z
          return I(static_cast<T>(0), static_cast<T>(0), true);''','''        else                    // P * Z
          return I(rnd.mul_down(xl, yl), rnd.mul_up(xu, yu), true);''')],
 '''int main() { IB x(1., inf); IB z(0.); IB r = x * z; CHECK(r.lower() == 0 && r.upper() == 0); IB q = IB(1.,2.) * z; CHECK(q.lower()==0 && q.upper()==0); }''')
seed('sub-assign-alias','C25','both operands of -= are the same object',
 'the lower bound is stored before the upper one is computed, so X -= X reads its own result',
 [('arith.hpp','''    typename Policies::rounding rnd;
    set(rnd.sub_down(low, r.up), rnd.sub_up(up, r.low));''','''    typename Policies::rounding rnd;
    low = rnd.sub_down(low, r.up);
    up  = rnd.sub_up(up, r.low);''')],
 '''int main() { ID x(1., 3.); ID y = x - x; x -= x; CHECK(x.lower() == y.lower() && x.upper() == y.upper()); ID a(1.,2.), b(3.,5.); a -= b; CHECK(a.lower()==-4 && a.upper()==-1); }''')
seed('overlap-touch','C16','two intervals that only share the upper bound of the second and the lower bound of the first',
 'overlap answers false when the intervals merely touch on that side',
 [('utility.hpp','''         (y.lower() <= x.lower() && x.lower() <= y.upper());''','''         (y.lower() <= x.lower() && x.lower() < y.upper());''')],
 '''int main() { CHECK(overlap(ID(2.,3.), ID(1.,2.))); CHECK(overlap(ID(1.,2.), ID(2.,3.))); CHECK(!overlap(ID(2.5,3.), ID(1.,2.))); }''')
seed('div-part1-flag-zero-edge','C04','zero strictly inside the divisor and a dividend whose upper bound is exactly zero',
 'the first part of the two-part division says there is no second part although both signs of quotients exist',
 [('detail/division.hpp','''  if (::boost::numeric::interval_lib::user::is_neg(xu))
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
  else
    { b = true;''','''  if (!::boost::numeric::interval_lib::user::is_pos(xu))
    { b = true;  return I(checking::neg_inf(), rnd.div_up(xu, yu), true); }
  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
    { b = false; return I(checking::neg_inf(), checking::pos_inf(), true); }
  else
    { b = true;''')],
 '''int main() { bool b; IB x(-2., 0.), y(-1., 4.); IB r = division_part1(x, y, b); CHECK(!b); CHECK(r.upper() == inf);
 IB r2 = division_part1(IB(1.,2.), y, b); CHECK(b); }''')
seed('hull-scalar-bad','C17','hull of an empty interval and a number',
 'the number is ignored together with the empty interval',
 [('utility.hpp','''  else
    if (bad_x) return interval<T, Policies>(y, y, true);''','''  else
    if (bad_x) return x;''')],
 '''int main() { IB e = IB::empty(); IB r = hull(e, 2.); CHECK(r.lower() == 2 && r.upper() == 2); IB q = hull(IB(1.,3.), 5.); CHECK(q.upper() == 5); }''')
seed('div-positive-zero-lower','C03','divisor [0,u] and a dividend whose upper bound is exactly zero (lower negative)',
 'the dividend that reaches zero from below is treated as strictly negative, with bound -0 ... and a dividend starting at zero is treated as straddling',
 [('detail/division.hpp','''    return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
  else if (::boost::numeric::interval_lib::user::is_neg(xl))
    return I(checking::neg_inf(), checking::pos_inf(), true);
  else
    return I(rnd.div_down(xl, yu), checking::pos_inf(), true);''','''    return I(checking::neg_inf(), rnd.div_up(xu, yu), true);
  else if (!::boost::numeric::interval_lib::user::is_pos(xl))
    return I(checking::neg_inf(), checking::pos_inf(), true);
  else
    return I(rnd.div_down(xl, yu), checking::pos_inf(), true);''')],
 '''int main() { ID r = ID(0.,1.) / ID(0.,2.); CHECK(r.lower() == 0); ID q = ID(2.,3.) / ID(0.,2.); CHECK(q.lower() == 1); }''')
seed('opp-add-down-direct','C01','the opposite-sign rounding policy and a sum that is not representable',
 'the downward sum is formed from the negated rounded sum, so rounding happens on the wrong side of one operand order',
 [('rounded_arith.hpp','T add_down(const T& x, const T& y) { BOOST_UP_NEG((-x) - y); }','T add_down(const T& x, const T& y) { return -this->force_rounding(-(x + y)); }')],
 '''int main() { IB r = IB(1.) + IB(std::ldexp(1.,-60)); CHECK(r.lower() == 1 && r.upper() > 1); IB q = IB(1.) + IB(-std::ldexp(1.,-60)); CHECK(q.lower() < 1 && q.upper() == 1); }''')
seed('pow-up-mixed-rounding','C06','an exponent with at least two set bits and an inexact last product',
 'the accumulated factor of the upper power is multiplied with the downward primitive',
 [('arith2.hpp','''    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);''','''    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_down(x, y);''')],
 '''int main() { int bad = 0; for (int i = 1; i < 2000; ++i) { double x = 1 + i / 2001.0; ID r = pow(ID(x), 3); long double t = (long double)x * x * x; if ((long double)r.upper() < t - 1e-18L * t) ++bad; } CHECK(bad == 0); CHECK(pow(IB(2.,3.), 3).upper() == 27); }''')
seed('root-odd-negative-lower','C08','an odd degree and an interval that contains zero inside, with an inexact root of the negative bound',
 'the negative bound is taken from the inner enclosure of the root, so the lower bound lies above the real root',
 [('arith2.hpp','''    else                 // [-1,1]^/3
      return I(-interval_lib::detail::root_aux_up<R>(-x.lower(), k), u, true);''','''    else                 // [-1,1]^/3
      return I(-interval_lib::detail::root_aux_dn<R>(-x.lower(), k), u, true);''')],
 '''int main() { ID r = nth_root(ID(-3., 1.), 3); CHECK((long double)r.lower() <= -std::cbrt(3.0L)); CHECK(nth_root(ID(-8., 0.), 3).lower() <= -2); }''')
seed('fmod-scalar-divisor','C09','a negative number modulo an interval of different bounds',
 'the quotient is always taken by the upper bound, so a negative dividend gives a negative lower bound',
 [('arith2.hpp','T const &yb = interval_lib::user::is_neg(x) ? y.lower() : y.upper();','T const &yb = interval_lib::user::is_zero(x) ? y.lower() : y.upper();')],
 '''int main() { ID r = fmod(-10., ID(3., 4.)); CHECK(r.lower() >= 0); ID q = fmod(10., ID(3.,4.)); CHECK(q.lower() >= 0); }''')
seed('asin-edge-inner','C10','asin of an interval that reaches down to -1 or below',
 'the closed end uses the inner bound of pi/2, so -pi/2 is not contained',
 [('transc.hpp','? -interval_lib::constants::pi_half_upper<T>()','? -interval_lib::constants::pi_half_lower<T>()')],
 '''int main() { ITS r = asin(ITS(-1., 0.5)); CHECK((long double)r.lower() < -1.5707963267948966192L - 1e-20L); CHECK(r.upper() > 0.5); }''')
seed('cos-reflect-wrong-end','C11','an interval that contains pi and ends closer to 2 pi than it starts from zero',
 'the reflected upper end is formed with the outer bound of 2 pi rounded up, which moves it away from the period by more than the angle error',
 [('transc.hpp','rnd.sub_down(pi2.lower(), u), l)), true);','rnd.sub_up(pi2.upper(), u), l)), true);')],
 '''int main() { int bad = 0; for (int i = 0; i < 300; ++i) { double u = 5.3 + i * 0.003; ITS q = cos(ITS(1.5, u)); if ((long double)q.upper() < std::cos((long double)u) - 3e-16L || q.lower() != -1) ++bad; } CHECK(bad == 0); }''')
seed('std-int-up-mode','C12','the standard rounding policy and a fractional argument, with the previous primitive having rounded down',
 'int_up relies on the mode left by the caller instead of setting it',
 [('rounded_arith.hpp','T int_up  (const T& x) { this->upward();   return this->to_int(x); }','T int_up  (const T& x) { return -this->int_down(x) == x ? x : this->to_int(x); }')],
 '''int main() { save_state<rounded_arith_std<double> > r; r.add_up(1., 1.); CHECK(r.int_up(2.5) == 3); r.add_down(1., 1.); CHECK(r.int_up(2.5) == 3); CHECK(r.int_up(3.) == 3); }''')
seed('transc-opp-mode-left','C13','the opposite-sign policy, a rounding object that lives longer than one operation, exp, log, cos, acos or cosh rounded down at an exact point before another operation',
 'the even functions return early with the mode still downward when rounding does not change the value',
 [('rounded_transc.hpp','''      this->downward(); T y = this->force_rounding(f(x)); \\
      this->upward(); return y; } \\
    T f##_up  (const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\''','''      this->downward(); T y = this->force_rounding(f(x)); \\
      if (y == static_cast<T>(0) || y == static_cast<T>(1)) return y; \\
      this->upward(); return y; } \\
    T f##_up  (const T& x) \\
    { BOOST_NUMERIC_INTERVAL_using_math(f); \\''')],
 '''typedef rounded_arith_opp<double> base;
int main() { save_state<rounded_transc_opp<double, base> > r; double z = r.exp_down(0.0); CHECK(z == 1); CHECK(std::fegetround() == FE_UPWARD); CHECK(r.add_up(1.0, 1e-30) > 1.0); r.log_down(1.0); CHECK(r.add_up(1.0, 1e-30) > 1.0); r.exp_down(1.0); CHECK(r.add_up(1.0, 1e-30) > 1.0); }''')
seed('save-state-init-twice','C14','a rounding object created while the mode is already upward, destroyed after the mode was changed',
 'the saved mode is only put back when it differs from the mode the policy works in',
 [('rounding.hpp','''    this->get_rounding_mode(mode);
    this->init();
  }
  ~save_state() { this->set_rounding_mode(mode); }''','''    this->get_rounding_mode(mode);
    this->init();
    this->get_rounding_mode(work);
  }
  ~save_state() { if (mode != work) this->set_rounding_mode(mode); }
  typename Rounding::rounding_mode work;''')],
 '''int main() { std::fesetround(FE_DOWNWARD); { IS a(1.), b(3.); IS c = a / b; (void)c; } CHECK(std::fegetround() == FE_DOWNWARD); std::fesetround(FE_TONEAREST); { IS c = IS(1.) / IS(3.); (void)c; } CHECK(std::fegetround() == FE_TONEAREST);
 std::fesetround(FE_UPWARD); { IB c = IB(1.) / IB(3.); (void)c; } CHECK(std::fegetround() == FE_UPWARD); }''')
seed('opp-sqrt-restore','C12','a primitive of the keep-upward policy that follows sqrt_down under one rounding object',
 'the square root of the opposite-sign policy leaves the mode downward, which later unprotected operations inherit',
 [('rounded_arith.hpp','''  T sqrt_down(const T& x)
  { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_DN(sqrt(x)); }
  T sqrt_up  (const T& x)
  { BOOST_NUMERIC_INTERVAL_using_math(sqrt); BOOST_UP(sqrt(x)); }
  T int_down(const T& x) { return -this->to_int(-x); }''','''  T sqrt_down(const T& x)
  { BOOST_NUMERIC_INTERVAL_using_math(sqrt); this->downward(); return this->force_rounding(sqrt(x)); }
  T sqrt_up  (const T& x)
  { BOOST_NUMERIC_INTERVAL_using_math(sqrt); this->upward(); return this->force_rounding(sqrt(x)); }
  T int_down(const T& x) { return -this->to_int(-x); }''')],
 '''int main() { typedef unprotect<IB>::type U; IB::traits_type::rounding rnd; (void)rnd; U s = sqrt(U(-1., 2.)); U t(0.25); save_state<rounded_arith_opp<double> > r2; double a = r2.sqrt_down(2.); double b = r2.add_up(1., std::ldexp(1., -60)); CHECK(b > 1); CHECK(a * a <= 2.0000001); (void)s; (void)t; }''')
seed('proper-subset-and','C16','one interval inside the other and sharing exactly one bound',
 'an interval that shares one bound is not a proper subset any more',
 [('utility.hpp','(y.lower() != x.lower() || x.upper() != y.upper());','(y.lower() != x.lower() && x.upper() != y.upper());')],
 '''int main() { CHECK(proper_subset(ID(1.,2.), ID(1.,3.))); CHECK(proper_subset(ID(1.5,2.), ID(1.,3.))); CHECK(!proper_subset(ID(1.,3.), ID(1.,3.))); }''')
seed('norm-sign-choice','C18','an interval that contains zero and reaches further on the negative side',
 'the larger magnitude is chosen by the sign of the upper bound',
 [('utility.hpp','''  BOOST_USING_STD_MAX();
  return max BOOST_PREVENT_MACRO_SUBSTITUTION(static_cast<T>(-x.lower()), x.upper());
}''','''  return interval_lib::user::is_pos(x.upper()) ? x.upper() : static_cast<T>(-x.lower());
}''')],
 '''int main() { CHECK(norm(ID(-3., 1.)) == 3); CHECK(norm(ID(-3.,-1.)) == 3); CHECK(norm(ID(-1.,3.)) == 3); }''')
seed('holder-own-checking','C19','the right operand is empty, and only its own policy knows empty intervals',
 'the emptiness of the right operand is tested with the policy of the left one',
 [('interval.hpp','''      typedef typename Policies2::checking checking2;
      if (checking2::is_empty(low, up))
        throw interval_lib::comparison_error();
    }

    const T& low;''','''      typedef typename Policies::checking checking2;
      if (checking2::is_empty(low, up))
        throw interval_lib::comparison_error();
    }

    const T& low;''')],
 '''typedef interval<int, policies<rounded_math<int>, checking_base<int> > > II;
typedef interval<int, policies<rounded_math<int>, checking_no_empty<int> > > IN;
int main() { IN x(2, 3); II e = II::empty(); bool t = false; try { bool b = x > e; (void)b; } catch (comparison_error const &) { t = true; } CHECK(t); CHECK(x > II(0, 1)); }''')
seed('convert-empty-integer','C23','an empty interval over a base type without NaN converted to a floating-point interval',
 'emptiness of the source is tested on its lower bound by the NaN rule of the target',
 [('interval.hpp','''interval<T, Policies>::interval(interval<T1, Policies1> const &r)
{
  typedef typename Policies1::checking checking1;
  if (checking1::is_empty(r.lower(), r.upper())) set_empty();''','''interval<T, Policies>::interval(interval<T1, Policies1> const &r)
{
  if (checking::is_nan(r.lower()) || checking::is_nan(r.upper())) set_empty();''')],
 '''typedef interval<int, policies<rounded_math<int>, checking_base<int> > > II;
int main() { bool t = false; try { ID r(II::empty()); (void)r; } catch (std::runtime_error const &) { t = true; } CHECK(t); IB q(II(1, 2)); CHECK(q.lower() == 1 && q.upper() == 2); }''')
seed('assign-drop-nan','C24','assign with a NaN upper bound under the policy that reports NaN by an exception',
 'the NaN is seen only as an invalid order, so the empty-interval reaction runs instead of the invalid-number one',
 [('interval.hpp','''  if (checking::is_nan(l) || checking::is_nan(u) || !(l <= u))
    set_empty();
  else set(l, u);''','''  if (checking::is_nan(l) || !(l <= u))
    set_empty();
  else set(l, u);''')],
 '''typedef interval<double, policies<save_state<rounded_arith_opp<double> >, checking_catch_nan<double, checking_base<double> > > > IC;
int main() { IC x(1., 2.); bool t = false; try { x.assign(0., qnan); } catch (std::invalid_argument const &) { t = true; } CHECK(t); t = false; try { x.assign(qnan, 1.); } catch (std::invalid_argument const &) { t = true; } CHECK(t); }''')
seed('limits-infinity','C28','numeric_limits of an interval whose base type has an infinity',
 'infinity() is the singleton of the base infinity instead of the whole line',
 [('limits.hpp','{ return I::whole(); }','{ return I(bl::infinity(), bl::infinity()); }')],
 '''int main() { IB w = std::numeric_limits<IB>::infinity(); CHECK(w.lower() == -inf && w.upper() == inf); }''')
seed('print-empty-other','C29','streaming an empty interval under a policy in which empties are not NaN pairs',
 'an empty interval is recognised by its bounds not being ordered with NaN instead of by the checking policy',
 [('io.hpp','if (empty(value))','if (value.lower() != value.lower())')],
 '''typedef interval<int, policies<rounded_math<int>, checking_base<int> > > II;
int main() { std::ostringstream s; s << II::empty(); CHECK(s.str() == "[]"); std::ostringstream t; t << IB(1.,2.); CHECK(t.str() == "[1,2]"); std::ostringstream u; u << IB::empty(); CHECK(u.str() == "[]"); }''',
 )
seed('max-scalar-upper','C05','max of an interval and a number above the interval',
 'the upper bound ignores the number, giving an inverted interval',
 [('utility.hpp','I(max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y), max BOOST_PREVENT_MACRO_SUBSTITUTION(x.upper(), y), true);','I(max BOOST_PREVENT_MACRO_SUBSTITUTION(x.lower(), y), x.upper(), true);')],
 '''int main() { ID r = max(ID(1., 2.), 5.); CHECK(r.lower() == 5 && r.upper() == 5); CHECK(max(ID(1., 7.), 5.).upper() == 7); }''')

seed('set-ne-mixed-empty','C21','set inequality where exactly one argument is empty',
 'sets are told apart by their bounds only, so an empty one compares not different',
 [('compare/set.hpp',"""  return !equal(y, x);""","""  return y.lower() > x.lower() || y.lower() < x.lower() || y.upper() > x.upper() || y.upper() < x.upper();""")],
 """int main() { using namespace boost::numeric::interval_lib::compare::set; CHECK(IB(1.,2.) != IB::empty()); CHECK(!(IB::empty() != IB::empty())); CHECK(IB(1.,2.) != IB(1.,3.)); }""")
seed('pow-extra-squaring','C27','an integer interval whose last power fits but whose next squaring does not',
 'the loop squares once more than it needs, overflowing int although the result fits',
 [('arith2.hpp',"""  while (pwr > 0) {
    x = rnd.mul_up(x, x);
    if (pwr & 1) y = rnd.mul_up(x, y);
    pwr >>= 1;
  }""","""  x = rnd.mul_up(x, x);
  while (pwr > 0) {
    if (pwr & 1) y = rnd.mul_up(x, y);
    x = rnd.mul_up(x, x);
    pwr >>= 1;
  }""")],
 """struct trap_math : rounded_math<int> {
  static int mul(int a, int b) { int r; if (__builtin_mul_overflow(a, b, &r)) { std::printf("overflow inside\\n"); exit(1); } return r; }
  int mul_down(int a, int b) { return mul(a, b); }
  int mul_up(int a, int b) { return mul(a, b); }
};
typedef interval<int, policies<trap_math, checking_base<int> > > II;
int main() { II r = pow(II(10, 200), 4); CHECK(r.lower() == 10000 && r.upper() == 1600000000); II q = pow(II(-7, 3), 3); CHECK(q.lower() == -343 && q.upper() == 27); }""")
seed('sqrt-touching-zero','C07','an interval whose upper bound is exactly zero',
 'the square root of an interval that meets the domain only in zero is reported empty',
 [('arith2.hpp','if (interval_lib::detail::test_input(x) || interval_lib::user::is_neg(x.upper()))','if (interval_lib::detail::test_input(x) || !interval_lib::user::is_pos(x.upper()))')],
 """int main() { IB r = sqrt(IB(-1., 0.)); CHECK(r.lower() == 0 && r.upper() == 0); CHECK(sqrt(IB(4.,9.)).upper() == 3); CHECK(empty(sqrt(IB(-2.,-1.)))); }""")

seed('pi-twice-generic','C26','twice pi over a base type other than the built-in floating-point ones',
 'the generic upper bound is the lower one, so the enclosure misses the constant',
 [('constants.hpp','template<class T> inline T pi_twice_upper() { return 7; }','template<class T> inline T pi_twice_upper() { return pi_twice_lower<T>(); }')],
 """int main() { interval<int> t = pi_twice<interval<int> >(); CHECK(t.lower() == 6 && t.upper() == 7); interval<int> p = pi<interval<int> >(); CHECK(p.lower() == 3 && p.upper() == 4); }""")

seed('opp-median-nearest','C15','an unprotected operation of the keep-upward policy that follows a median under one rounding object',
 'the median leaves the mode to nearest, so later unprotected operations no longer round outwards',
 [('rounded_arith.hpp',"""      r = this->force_rounding(x / 2 + y / 2);
    this->upward();
    return r;""","""      r = this->force_rounding(x / 2 + y / 2);
    return r;""")],
 """int main() { typedef unprotect<IB>::type U; IB::traits_type::rounding rnd; (void)rnd; double m = median(U(1., 2.)); U r = U(m) + U(std::ldexp(1., -60)); CHECK(r.lower() == 1.5 && r.upper() > 1.5); }""")
seed('cereq-mixed-infinite','C20','certain equality of intervals with infinite bounds',
 'equality is tested through the width of the common hull, which is NaN or infinite for infinite points',
 [('compare/explicit.hpp',"""bool cereq(const interval<T, Policies1>& x, const interval<T, Policies2>& y)
{
  return x.lower() == y.upper() && y.lower() == x.upper();""","""bool cereq(const interval<T, Policies1>& x, const interval<T, Policies2>& y)
{
  return x.upper() - y.lower() <= static_cast<T>(0) && y.upper() - x.lower() <= static_cast<T>(0);""")],
 """int main() { CHECK(cereq(IB(inf,inf), IB(inf,inf))); CHECK(!cereq(IB(1.,2.), IB(1.,2.))); CHECK(cereq(IB(1.), IB(1.))); CHECK(!cereq(IB(1.), IB(2.))); }""")

seed('tribool-infinite-number','C22','an interval whose upper bound is infinite compared with the same infinity',
 'the bound and the number are compared through the sign of their difference, which is NaN',
 [('compare/tribool.hpp',"""  if (x.upper() <= y) return true;""","""  if (x.upper() - y <= static_cast<T>(0)) return true;""")],
 """#include <boost/numeric/interval/compare/tribool.hpp>
int main() { using namespace boost::numeric::interval_lib::compare::tribool; boost::logic::tribool r = IB(1.,inf) <= inf; CHECK(bool(r)); CHECK(bool(IB(1.,2.) <= 2.)); CHECK(boost::logic::indeterminate(IB(1.,2.) <= 1.5)); }""")

X87PRE='''#include <boost/config.hpp>
#include <boost/limits.hpp>
#include <cmath>
#include <iostream>
#include <string>
#define BOOST_NO_FENV_H
#define _M_X64
#include <boost/numeric/interval.hpp>
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
#include <cstdio>
using namespace boost::numeric::interval_lib;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\\\n", #c); return 1; } } while (0)
static unsigned cw() { unsigned short m; __asm__ __volatile__("fnstcw %0" : "=m"(m)); return m; }
'''.replace('\\\\\\\\','\\\\').replace('\\\\n','\\n')
seed('x87-fast-double-precision','C30','the fast x87 control for double, upward direction',
 'upward on the fast control for double selects the 24-bit precision field',
 [('ext/x86_fast_rounding_control.hpp','{ 0x127f, 0x167f, 0x1a7f, 0x1e7f }','{ 0x127f, 0x167f, 0x187f, 0x1e7f }')],
 """int main() { x86_fast_rounding_control<double> c; c.upward(); CHECK((cw() & 0x300) == 0x200 && (cw() & 0xc00) == 0x800); c.downward(); CHECK((cw() & 0x300) == 0x200 && (cw() & 0xc00) == 0x400); c.to_nearest(); CHECK((cw() & 0xf00) == 0x200); }""",pre=X87PRE)
MSPRE='''#include <boost/config.hpp>
#include <cfloat>
#include <cmath>
#include <cstdio>
enum { _EM_INEXACT=0x1, _EM_UNDERFLOW=0x2, _EM_OVERFLOW=0x4, _EM_ZERODIVIDE=0x8, _EM_INVALID=0x10, _EM_DENORMAL=0x80000, _MCW_EM=0x8001f,
  _IC_AFFINE=0x40000, _MCW_IC=0x40000, _RC_NEAR=0, _RC_DOWN=0x100, _RC_UP=0x200, _RC_CHOP=0x300, _MCW_RC=0x300, _PC_64=0, _PC_53=0x10000, _PC_24=0x20000, _MCW_PC=0x30000 };
static unsigned word; 
static unsigned int _control87(unsigned int n, unsigned int mask) { word = (word & ~mask) | (n & mask); return word; }
#define _MSC_VER 1900
#include <boost/numeric/interval/detail/msvc_rounding_control.hpp>
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)
using boost::numeric::interval_lib::detail::x86_rounding;
'''
seed('msvc-precision-swap','C30','a caller who runs with 24-bit precision, Microsoft back end',
 'the conversion from the run-time layout reads the 24-bit field as the 53-bit one, so the caller gets a different precision back',
 [('detail/msvc_rounding_control.hpp','''    case _PC_24: m |= 0x000; break;
    case _PC_53: m |= 0x200; break;''','''    case _PC_24:
    case _PC_53: m |= 0x200; break;''')],
 """int main() { unsigned pcs[] = { _PC_64, _PC_53, _PC_24 }; for (unsigned p : pcs) for (unsigned rc = 0; rc <= 0x300; rc += 0x100) { word = 0x8001f | rc | p; unsigned w = word; x86_rounding::rounding_mode m; x86_rounding::get_rounding_mode(m); x86_rounding::set_rounding_mode(0x1b7f); CHECK((word & 0x300) == _RC_UP); x86_rounding::set_rounding_mode(m); CHECK(word == w); } }""",pre=MSPRE)
LOOSEPRE='''#include <boost/numeric/interval.hpp>
#include <cstdio>
#include <limits>
#include <cmath>
using namespace boost::numeric; using namespace boost::numeric::interval_lib;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)
// a policy whose bounds are valid but not the nearest ones: n-th call off by step[n]
static double step[64]; static int pos;
struct L : rounded_arith_exact<double> { typedef L unprotected_rounding;
  static double e() { return step[pos++ % 64]; }
  double add_down(double a, double b) { return a + b - e(); } double add_up(double a, double b) { return a + b + e(); }
  double sub_down(double a, double b) { return a - b - e(); } double sub_up(double a, double b) { return a - b + e(); }
  double mul_down(double a, double b) { return a * b - e(); } double mul_up(double a, double b) { return a * b + e(); }
  double div_down(double a, double b) { return a / b - e(); } double div_up(double a, double b) { return a / b + e(); } };
typedef interval<double, policies<L, checking_base<double> > > IL;
static unsigned long g = 1; static double rnd01() { g = g * 6364136223846793005UL + 1442695040888963407UL; return double(g >> 40) / double(1 << 24); }
'''
seed('mul-pick-by-upper','C31','a rounding policy with loose bounds and two factors that both contain zero',
 'the lower bound of the mixed product is picked by comparing the products rounded up, which need not be in the order of the products',
 [('arith.hpp',"""          return I(min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.mul_down(xl, yu), rnd.mul_down(xu, yl)),
                   max BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.mul_up  (xl, yl), rnd.mul_up  (xu, yu)), true);
        else                    // M * N
          return I(rnd.mul_down(xu, yl), rnd.mul_up(xl, yl), true);
      else
        if (interval_lib::user::is_pos(yu)) // M * P""","""        {
          T u1 = rnd.mul_up(xl, yu), u2 = rnd.mul_up(xu, yl);
          T l = u1 < u2 ? rnd.mul_down(xl, yu) : u2 < u1 ? rnd.mul_down(xu, yl)
            : min BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.mul_down(xl, yu), rnd.mul_down(xu, yl));
          return I(l,
                   max BOOST_PREVENT_MACRO_SUBSTITUTION(rnd.mul_up  (xl, yl), rnd.mul_up  (xu, yu)), true);
        }
        else                    // M * N
          return I(rnd.mul_down(xu, yl), rnd.mul_up(xl, yl), true);
      else
        if (interval_lib::user::is_pos(yu)) // M * P""")],
 """int main() { for (int i = 0; i < 10000; ++i) { for (double &s : step) s = std::floor(rnd01() * 4); double a = -1 - std::floor(rnd01() * 9), b = 1 + std::floor(rnd01() * 9), c = -1 - std::floor(rnd01() * 9), d = 1 + std::floor(rnd01() * 9);
   IL r = IL(a,b) * IL(c,d); CHECK(r.lower() <= a * d && r.lower() <= b * c && r.upper() >= a * c && r.upper() >= b * d); } }""",pre=LOOSEPRE)
DOMPRE='''#include <boost/numeric/interval.hpp>
#include <cstdio>
#include <limits>
#include <cmath>
using namespace boost::numeric; using namespace boost::numeric::interval_lib;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)
// a policy that notes calls outside the documented domains
static int bad;
struct D : save_state<rounded_transc_std<double> > { typedef save_state<rounded_transc_std<double> > B; typedef D unprotected_rounding;
  double div_down(double a, double b) { if (!(b != 0)) bad = 1; return B::div_down(a, b); } double div_up(double a, double b) { if (!(b != 0)) bad = 1; return B::div_up(a, b); }
  double log_down(double a) { if (!(a > 0)) bad = 1; return B::log_down(a); } double log_up(double a) { if (!(a > 0)) bad = 1; return B::log_up(a); }
  double acosh_down(double a) { if (!(a >= 1)) bad = 1; return B::acosh_down(a); } double acosh_up(double a) { if (!(a >= 1)) bad = 1; return B::acosh_up(a); } };
typedef interval<double, policies<D, checking_base<double> > > ID;
static const double inf = std::numeric_limits<double>::infinity();
'''
seed('log-of-zero','C32','a lower bound of exactly zero',
 'log calls log_down(0), outside its domain, where it returned the infinity of the checking policy',
 [('transc.hpp',"""  T l = !interval_lib::user::is_pos(x.lower())
             ? checking::neg_inf() : rnd.log_down(x.lower());""","""  T l = interval_lib::user::is_neg(x.lower())
             ? checking::neg_inf() : rnd.log_down(x.lower());""")],
 """int main() { log(ID(0.,2.)); CHECK(!bad); log(ID(-1.,2.)); CHECK(!bad); ID r = log(ID(.5,2.)); CHECK(!bad && r.lower() < 0 && r.upper() > 0); }""",pre=DOMPRE)
seed('inverse-divides-by-zero','C32','the inverse of an interval that starts at zero',
 'the infinite bound of the inverse comes from a division by zero',
 [('arith2.hpp',"""        return I(rnd.div_down(one, x.upper()), checking::pos_inf(), true);
      else
        return I::empty();""","""        return I(rnd.div_down(one, x.upper()), rnd.div_up(one, rnd.mul_up(x.lower(), x.lower())), true);
      else
        return I::empty();""")],
 """int main() { multiplicative_inverse(ID(0.,2.)); CHECK(!bad); multiplicative_inverse(ID(-2.,0.)); CHECK(!bad); ID r = multiplicative_inverse(ID(1.,2.)); CHECK(!bad && r.lower() == .5 && r.upper() == 1); }""",pre=DOMPRE)
seed('pow-sixteen-bits','C06','an exponent above 65535 and a base so close to one that the power is finite',
 'the loop for the upper bound stops after sixteen bits of the exponent, so that high powers are too small',
 [('arith2.hpp',"""  while (pwr > 0) {
    x = rnd.mul_up(x, x);""","""  for (int bit = 1; bit < 16 && pwr > 0; ++bit) {
    x = rnd.mul_up(x, x);""")],
 """int main() { ID x(1.0 - 1e-6, 1.0 + 1e-6); ID r = pow(x, 100000); CHECK(r.upper() > 1.10 && r.lower() < .91 && r.upper() < 1.11); CHECK(pow(x,7).upper() > 1 + 6.9e-6); CHECK(pow(ID(2,3),5).upper() == 243); }""",pre=DOMPRE)
CHKPRE='''#include <boost/numeric/interval.hpp>
#include <cstdio>
#include <limits>
using namespace boost::numeric; using namespace boost::numeric::interval_lib;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while (0)
// a checking policy without infinities and NaN: the empty interval is [7,-7], the largest number is infinite, nan() is -12345
struct C { static double pos_inf() { return std::numeric_limits<double>::max(); } static double neg_inf() { return -pos_inf(); }
  static double nan() { return -12345; } static bool is_nan(double x) { return x != x; }
  static double empty_lower() { return 7; } static double empty_upper() { return -7; }
  static bool is_empty(double l, double u) { return l == 7 && u == -7; } };
typedef interval<double, policies<rounded_math<double>, C> > IC;
static bool is(IC x, double l, double u) { return x.lower() == l && x.upper() == u; }
static const IC EM(7., -7., true); static const double BIG = std::numeric_limits<double>::max();
'''
seed('division-infinity','C33','a checking policy whose infinities are the largest numbers, a positive number and a divisor with zero as its lower bound',
 'a number divided by an interval that starts at zero is bounded by the infinity of the base type instead of that of the checking policy',
 [('detail/division.hpp',"""    return I(checking::neg_inf(), rnd.div_up(x, yu), true);
  else
    return I(rnd.div_down(x, yu), checking::pos_inf(), true);""","""    return I(checking::neg_inf(), rnd.div_up(x, yu), true);
  else
    return I(rnd.div_down(x, yu), std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : checking::pos_inf(), true);""")],
 """int main() { CHECK(is(1. / IC(0,2), .5, BIG)); CHECK(is(-1. / IC(0,2), -BIG, -.5)); CHECK(is(1. / IC(-2,0), -BIG, -.5)); CHECK(is(IC(1,2) / IC(0,2), .5, BIG)); }""",pre=CHKPRE)
seed('overlap-of-empty','C33','a checking policy whose empty interval is not made of NaNs and whose lower number of the empty interval lies in the other interval',
 'overlap leaves out the emptiness test of its second argument, as if comparisons with the bounds of an empty interval were always false',
 [('utility.hpp',"""  if (interval_lib::detail::test_input(x, y)) return false;
  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||""","""  if (empty(x)) return false;
  return (x.lower() <= y.lower() && y.lower() <= x.upper()) ||""")],
 """int main() { CHECK(!overlap(IC(-10,10), EM)); CHECK(!overlap(EM, IC(-10,10))); CHECK(overlap(IC(1,2), IC(2,3))); CHECK(!overlap(IC(1,2), IC(3,4))); }""",pre=CHKPRE)
seed('root-of-empty','C33','a checking policy whose empty interval is not made of NaNs',
 'sqrt lets an empty argument through to the sign test, which takes care of NaN bounds only',
 [('arith2.hpp',"""  if (interval_lib::detail::test_input(x) || interval_lib::user::is_neg(x.upper()))
    return I::empty();
  typename Policies::rounding rnd;
  T l = ""","""  if (!(x.upper() >= static_cast<T>(0)))
    return I::empty();
  typename Policies::rounding rnd;
  T l = """)],
 """struct C2 : C { static double empty_lower() { return 9; } static double empty_upper() { return 4; } static bool is_empty(double l, double u) { return l == 9 && u == 4; } };
int main() { typedef interval<double, policies<rounded_math<double>, C2> > I2; I2 r = sqrt(I2(9., 4., true)); CHECK(r.lower() == 9 && r.upper() == 4); CHECK(empty(sqrt(I2(-2,-1)))); r = sqrt(I2(4,9)); CHECK(r.lower() == 2 && r.upper() == 3); }""",pre=CHKPRE)
seed('log-memo','C10','two calls in a row, the second interval beginning where the first one ended',
 'log keeps the value it computed last, the upper bound of the result, and uses it as the lower bound of the next result when the end points agree',
 [('transc.hpp',"""  T l = !interval_lib::user::is_pos(x.lower())
             ? checking::neg_inf() : rnd.log_down(x.lower());
  return I(l, rnd.log_up(x.upper()), true);""","""  static thread_local T last_x = static_cast<T>(0), last_v = static_cast<T>(0);
  T l = !interval_lib::user::is_pos(x.lower()) ? checking::neg_inf()
      : x.lower() == last_x ? last_v : rnd.log_down(x.lower());
  last_v = rnd.log_up(x.upper());
  last_x = x.upper();
  return I(l, last_v, true);""")],
 """struct P { typedef save_state<rounded_transc_std<double> > R; };
int main() { typedef interval<double, policies<P::R, checking_base<double> > > I; I a = log(I(2,3)), b = log(I(3,4)), c = log(I(1,2)), d = log(I(3,4));
  CHECK(b.lower() == d.lower() && b.upper() == d.upper()); CHECK(a.lower() <= .6931471805599454 && a.lower() >= .693147180559945); CHECK(c.upper() >= .693147180559945); CHECK(b.lower() <= 1.0986122886681097); 
  for (int i = 1; i < 200; ++i) { I p = log(I(i, i + 1)), q = log(I(i + 1, i + 2)); log(I(.5,.75)); I q2 = log(I(i + 1, i + 2)); CHECK(q.lower() == q2.lower() && p.upper() >= q.lower()); } }""",pre=DOMPRE)

THRPRE=DOMPRE+"""#include <thread>
#include <atomic>
// the first thread stops inside the operation until the second one has finished its own
static std::atomic<int> stage(0); static thread_local bool first = false;
static void meet() { if (!first) return; first = false; stage = 1; while (stage != 2) std::this_thread::yield(); }
struct W : save_state<rounded_transc_std<double> > { typedef save_state<rounded_transc_std<double> > B; typedef W unprotected_rounding;
  double sqrt_up(double a) { meet(); return B::sqrt_up(a); } double mul_up(double a, double b) { meet(); return B::mul_up(a, b); } double div_up(double a, double b) { meet(); return B::div_up(a, b); } };
typedef interval<double, policies<W, checking_base<double> > > IW;
template<class F> static IW run(F f, IW x, IW y) { IW r, q; stage = 0; std::thread a([&] { first = true; r = f(x); first = false; if (stage == 0) stage = 1; });
  std::thread b([&] { while (stage == 0) std::this_thread::yield(); q = f(y); stage = 2; }); a.join(); b.join(); return r; }
static bool same(IW x, IW y) { return x.lower() == y.lower() && x.upper() == y.upper(); }
"""
seed('sqrt-static','C34','two threads in sqrt at the same time, the second one between the two bounds of the first',
 'the lower bound is kept in a static variable, shared by all threads, while the upper bound is computed',
 [('arith2.hpp',"""  T l = !interval_lib::user::is_pos(x.lower()) ? static_cast<T>(0) : rnd.sqrt_down(x.lower());
  T u =""","""  static T l; // no need to construct it in every call
  l = !interval_lib::user::is_pos(x.lower()) ? static_cast<T>(0) : rnd.sqrt_down(x.lower());
  T u =""")],
 """int main() { auto f = [](IW const &x) { return sqrt(x); }; for (int i = 0; i < 20; ++i) CHECK(same(run(f, IW(4, 9), IW(16, 25)), IW(2, 3))); CHECK(same(sqrt(IW(16,25)), IW(4,5))); }""",pre=THRPRE)
seed('pow-static','C34','two threads that raise negative intervals to an integer power at the same time',
 'the smaller power of a negative interval is kept in a static variable, shared by all threads, while the larger one is computed',
 [('arith2.hpp',"""    T yl = pow_dn(static_cast<T>(-x.upper()), pwr, rnd);
    T yu =""","""    static T yl;
    yl = pow_dn(static_cast<T>(-x.upper()), pwr, rnd);
    T yu =""")],
 """int main() { auto f = [](IW const &x) { return pow(x, 3); }; for (int i = 0; i < 20; ++i) CHECK(same(run(f, IW(-3, -2), IW(-7, -5)), IW(-27, -8))); CHECK(same(pow(IW(-7,-5), 3), IW(-343,-125))); auto g = [](IW const &x) { return pow(x, 2); }; CHECK(same(run(g, IW(-3,-1), IW(-5,-4)), IW(1, 9))); }""",pre=THRPRE)
