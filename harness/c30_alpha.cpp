// Alpha: FPCR, rounding in bits 58-59 (0 zero, 1 down, 2 nearest, 3 up)
#include "c30.inc"
static inline void fpsync() { direction((reg >> 58) & 3, 2, 1, 3); }
#ifdef DECCXX
enum { FP_RND_RZ = 0, FP_RND_RM = 1, FP_RND_RN = 2, FP_RND_RP = 3 };
extern "C" unsigned int read_rnd() { return (unsigned int)(reg >> 58) & 3; }
extern "C" unsigned int write_rnd(unsigned int m) { unsigned int o = read_rnd(); reg = (reg & ~(3ull << 58)) | ((u64)(m & 3) << 58); fpsync(); return o; }
#undef __GNUC__
#define __digital__
#define RESTORE_GNUC
#else
extern "C" void verif_mtfpcr(double d) { std::memcpy(&reg, &d, 8); fpsync(); }
extern "C" double verif_mffpcr() { double d; std::memcpy(&d, &reg, 8); return d; }
#endif
#undef __x86_64__
#define __alpha__ 1
#include <boost/numeric/interval/hw_rounding.hpp>
#include "c30_tests.inc"
