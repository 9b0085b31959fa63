// x87 control word, GNU compilers (the back end of 32-bit x86): rounding in bits 10-11, precision in bits 8-9
#include "c30.inc"
static inline void fpsync() { direction((reg >> 10) & 3, 0, 1, 2); }
extern "C" void verif_fldcw(unsigned short *p) { reg = *p; fpsync(); }
extern "C" void verif_fnstcw(unsigned short *p) { *p = (unsigned short)reg; }
extern "C" float verif_frndint_float(float x) { return std::rint(x); }
extern "C" double verif_frndint_double(double x) { return std::rint(x); }
extern "C" long double verif_frndint_x86_fp80(long double x) { return std::rint(x); }
#define BOOST_NO_FENV_H
#define _M_X64
#include <boost/numeric/interval/hw_rounding.hpp>
#ifdef FASTX87
#include <boost/numeric/interval/ext/x86_fast_rounding_control.hpp>
#define CONTROL il::x86_fast_rounding_control
#endif
#include "c30_tests.inc"
