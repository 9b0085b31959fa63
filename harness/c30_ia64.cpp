// HP-UX on ia64: fesetround and fegetround; the register is the mode itself
#include "c30.inc"
static inline void fpsync() { direction(reg & 3, 0, 1, 2); }
#undef __x86_64__
#define __ia64__ 1
#define __hpux
#include <boost/numeric/interval/hw_rounding.hpp>
#include "c30_tests.inc"
