// SPARC: FSR, rounding in bits 30-31 (0 nearest, 1 zero, 2 up, 3 down)
#include "c30.inc"
static inline void fpsync() { direction((reg >> 30) & 3, 0, 3, 2); }
extern "C" void verif_ldfsr(unsigned int *p) { reg = *p; fpsync(); }
extern "C" void verif_stfsr(unsigned int *p) { *p = (unsigned int)reg; }
#undef __x86_64__
#define __sparc__ 1
#include <boost/numeric/interval/hw_rounding.hpp>
#include "c30_tests.inc"
