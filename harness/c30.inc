// Common part of the back-end harnesses.  Each back end (one translation unit per back end, see c30_*.cpp) is included through
// hw_rounding.hpp as on its own machine; the machine's floating-point control register is the variable below, and the
// machine instructions that touch it (rewritten to calls in the IR) are the extern "C" functions each file defines.
#include <boost/config.hpp>
#include <boost/limits.hpp>
#include <boost/detail/workaround.hpp>
#include <cmath>
#include <cfloat>
#include <math.h>
#include <cfenv>
#include <cstring>
#include <string>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <boost/numeric/interval/rounding.hpp>
#include <boost/numeric/interval/rounded_arith.hpp>
typedef unsigned long long u64;
static u64 reg;                                  // the control register
static inline void direction(u64 v, u64 ne, u64 dn, u64 up)
{ std::fesetround(v == ne ? FE_TONEAREST : v == dn ? FE_DOWNWARD : v == up ? FE_UPWARD : FE_TOWARDZERO); }
