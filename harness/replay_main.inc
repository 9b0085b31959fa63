// native replay support (force-included before the harness): catches exceptions, records the rounding mode on exit,
// replaces the elementary functions by ones that round correctly in the current mode
#include <cfenv>
#include <cstring>
#include <typeinfo>
#include <exception>
extern "C" int verif_run(void (*h)(const char*, char*), const char *in, char *out, int entry_mode, int *exit_mode, char *exc)
{
  int r = 0; exc[0] = 0;
  std::fesetround(entry_mode);
  try { h(in, out); }
  catch (std::exception const &e) { r = 1; std::strncpy(exc, typeid(e).name(), 255); }
  catch (...) { r = 1; std::strcpy(exc, "?"); }
  *exit_mode = std::fegetround();
  std::fesetround(0);
  return r;
}
typedef void (*verif_libm_t)(int, int, int, const void*, void*);
extern "C" { verif_libm_t verif_libm_cb; }
#define VERIF_M1(T, name, id, ty) extern "C" T __wrap_##name(T x) { int m = std::fegetround(); std::fesetround(0); \
  alignas(16) char a[16], b[16]; std::memcpy(a, &x, sizeof x); verif_libm_cb(id, m, ty, a, b); T r; std::memcpy(&r, b, sizeof r); std::fesetround(m); return r; }
#define VERIF_M(name, id) VERIF_M1(double, name, id, 1) VERIF_M1(float, name##f, id, 0) VERIF_M1(long double, name##l, id, 2)
VERIF_M(acos,0) VERIF_M(acosh,1) VERIF_M(asin,2) VERIF_M(asinh,3) VERIF_M(atan,4) VERIF_M(atanh,5) VERIF_M(cos,6) VERIF_M(cosh,7)
VERIF_M(exp,8) VERIF_M(log,9) VERIF_M(sin,10) VERIF_M(sinh,11) VERIF_M(tan,12) VERIF_M(tanh,13)
