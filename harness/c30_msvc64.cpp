// Microsoft compilers for 64-bit x86: only the exception masks and the rounding field may be touched
#define MSVC64
#include "c30_msvc.cpp"
