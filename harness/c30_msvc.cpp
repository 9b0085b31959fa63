// Microsoft compilers: _control87 with its own layout of the control word
#include "c30.inc"
enum { _EM_INEXACT=0x1, _EM_UNDERFLOW=0x2, _EM_OVERFLOW=0x4, _EM_ZERODIVIDE=0x8, _EM_INVALID=0x10, _EM_DENORMAL=0x80000, _MCW_EM=0x8001f,
  _IC_AFFINE=0x40000, _MCW_IC=0x40000, _RC_NEAR=0, _RC_DOWN=0x100, _RC_UP=0x200, _RC_CHOP=0x300, _MCW_RC=0x300, _PC_64=0, _PC_53=0x10000, _PC_24=0x20000, _MCW_PC=0x30000 };
static inline void fpsync() { direction(reg & 0x300, 0, 0x100, 0x200); }
extern "C" unsigned int _control87(unsigned int n, unsigned int mask)
{
#ifdef MSVC64
  if (mask & ~(unsigned)(_MCW_EM | _MCW_RC)) { throw std::runtime_error("_control87: unsupported field"); }
#endif
  reg = (reg & ~(u64)mask) | (n & mask); fpsync(); return (unsigned int)reg;
}
#undef __x86_64__
#undef __GNUC__
#define _MSC_VER 1900
#define _M_X64
#ifdef MSVC64
#define _M_AMD64
#endif
#include <boost/numeric/interval/hw_rounding.hpp>
#undef _MSC_VER
#define RESTORE_GNUC
#include "c30_tests.inc"
