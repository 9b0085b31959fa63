#include <ostream>
// A stream that records what is written to it: characters, numbers, in order.
struct rec_traits : std::char_traits<char> {};
#define NEV 10
namespace std {
template<> class basic_ostream<char, rec_traits> {
public:
  typedef basic_ostream self;
  int n; int kind[NEV]; float val_float[NEV]; double val_double[NEV]; long double val_ldouble[NEV]; int val_int[NEV];
  basic_ostream(): n(0) { for (int i = 0; i < NEV; ++i) { kind[i] = 0; val_float[i] = 0; val_double[i] = 0; val_ldouble[i] = 0; val_int[i] = 0; } }
  template<class T> self &ev(int k, T *a, T v) { if (n < NEV) { kind[n] = k; if (a) a[n] = v; } ++n; return *this; }
  self &put(char c) { return ev(c, (int*)0, 0); }
  self &write(const char *s, long m) { for (long i = 0; i < m; ++i) put(s[i]); return *this; }
  self &operator<<(float v) { return ev(1, val_float, v); }
  self &operator<<(double v) { return ev(2, val_double, v); }
  self &operator<<(long double v) { return ev(3, val_ldouble, v); }
  self &operator<<(int v) { return ev(4, val_int, v); }
  self &operator<<(self &(*f)(self &)) { return f(*this); }
  bool good() const { return true; }
};
inline basic_ostream<char, rec_traits> &operator<<(basic_ostream<char, rec_traits> &s, char c) { return s.put(c); }
inline basic_ostream<char, rec_traits> &operator<<(basic_ostream<char, rec_traits> &s, const char *p) { while (*p) s.put(*p++); return s; }
}
#include "common.hpp"
#include <boost/numeric/interval/io.hpp>
typedef std::basic_ostream<char, rec_traits> rec;
#define ONE(S,T,P) HARNESS(io_##S##_##T) { typedef P<T>::type I; I x = raw<I>(in,0); rec r; \
  rec &q = (r << x); OUT(int,0) = (&q == &r); OUT(int,1) = r.n; put(out,2,x); \
  for (int i = 0; i < NEV; ++i) { OUT(int,4+2*i) = r.kind[i]; OUT(T,5+2*i) = r.val_##T[i]; } }
#define TWO(S,T,P) HARNESS(io2_##S##_##T) { typedef P<T>::type I; I x = raw<I>(in,0), y = raw<I>(in,2); rec r; \
  r << x << y; OUT(int,0) = 1; OUT(int,1) = r.n; put(out,2,x); \
  for (int i = 0; i < NEV; ++i) { OUT(int,4+2*i) = r.kind[i]; OUT(T,5+2*i) = r.val_##T[i]; } }
#define ALL(T) ONE(def,T,Idef) ONE(ob,T,Iob) ONE(cn,T,Icn) ONE(tos,T,Itos) TWO(ob,T,Iob)
ALL(float) ALL(double) ALL(ldouble) ONE(def,int,Idef) ONE(ob,int,Iob) TWO(ob,int,Iob)
