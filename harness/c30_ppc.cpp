// PowerPC: FPSCR, rounding in the last two bits (0 nearest, 1 zero, 2 up, 3 down)
#include "c30.inc"
static inline void fpsync() { direction(reg & 3, 0, 3, 2); }
extern "C" void verif_mtfsf(double d) { u64 v; std::memcpy(&v, &d, 8); reg = v & 0xffffffffull; fpsync(); }
extern "C" double verif_mffs() { u64 v = 0xfff8000000000000ull | reg; double d; std::memcpy(&d, &v, 8); return d; }
extern "C" float verif_frsp(float r) { return r; }
#undef __x86_64__
#define __powerpc__ 1
#include <boost/numeric/interval/hw_rounding.hpp>
#include "c30_tests.inc"
