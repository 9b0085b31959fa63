// Borland: _control87 with the layout of the hardware control word
#include "c30.inc"
static inline void fpsync() { direction((reg >> 10) & 3, 0, 1, 2); }
extern "C" unsigned int _control87(unsigned int n, unsigned int mask) { reg = (reg & ~(u64)mask) | (n & mask); fpsync(); return (unsigned int)reg; }
extern "C" unsigned int _fm_init(void) { return 0; }
#define _RTLENTRY
#define __emit__(x) return 0
#undef __x86_64__
#undef __GNUC__
#undef __clang__
#define __BORLANDC__ 0x560
#define _M_IX86 600
#include <boost/numeric/interval/hw_rounding.hpp>
#undef __BORLANDC__
#define __clang__ 1
#define RESTORE_GNUC
#include "c30_tests.inc"
