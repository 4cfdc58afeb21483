// Under ThreadSanitizer the libraries below the code under test (NTL, Crypto++) are not instrumented: a number or a digest
// state which two threads write would go unseen.  Their lowest functions are wrapped here, and tell what they write.
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#include <NTL/lip.h>
#include <cryptopp/sha.h>
#include <dlfcn.h>

extern "C" void __tsan_write8(void *);
extern "C" void __tsan_write_range(void *, unsigned long);

typedef _ntl_gbigint G;

// (the linker replaces the references of all the objects but NTL's lowest one)
extern "C" {
// one result, the last argument
void __real__Z10_ntl_gcopyP17_ntl_gbigint_bodyPS0_(G, G *);
void __wrap__Z10_ntl_gcopyP17_ntl_gbigint_bodyPS0_(G a, G *b) { __tsan_write8(b); __real__Z10_ntl_gcopyP17_ntl_gbigint_bodyPS0_(a, b); }
void __real__Z9_ntl_gaddP17_ntl_gbigint_bodyS0_PS0_(G, G, G *);
void __wrap__Z9_ntl_gaddP17_ntl_gbigint_bodyS0_PS0_(G a, G b, G *c) { __tsan_write8(c); __real__Z9_ntl_gaddP17_ntl_gbigint_bodyS0_PS0_(a, b, c); }
void __real__Z9_ntl_gsubP17_ntl_gbigint_bodyS0_PS0_(G, G, G *);
void __wrap__Z9_ntl_gsubP17_ntl_gbigint_bodyS0_PS0_(G a, G b, G *c) { __tsan_write8(c); __real__Z9_ntl_gsubP17_ntl_gbigint_bodyS0_PS0_(a, b, c); }
void __real__Z10_ntl_gsaddP17_ntl_gbigint_bodylPS0_(G, long, G *);
void __wrap__Z10_ntl_gsaddP17_ntl_gbigint_bodylPS0_(G a, long b, G *c) { __tsan_write8(c); __real__Z10_ntl_gsaddP17_ntl_gbigint_bodylPS0_(a, b, c); }
void __real__Z10_ntl_gssubP17_ntl_gbigint_bodylPS0_(G, long, G *);
void __wrap__Z10_ntl_gssubP17_ntl_gbigint_bodylPS0_(G a, long b, G *c) { __tsan_write8(c); __real__Z10_ntl_gssubP17_ntl_gbigint_bodylPS0_(a, b, c); }
void __real__Z9_ntl_gmulP17_ntl_gbigint_bodyS0_PS0_(G, G, G *);
void __wrap__Z9_ntl_gmulP17_ntl_gbigint_bodyS0_PS0_(G a, G b, G *c) { __tsan_write8(c); __real__Z9_ntl_gmulP17_ntl_gbigint_bodyS0_PS0_(a, b, c); }
void __real__Z10_ntl_gsmulP17_ntl_gbigint_bodylPS0_(G, long, G *);
void __wrap__Z10_ntl_gsmulP17_ntl_gbigint_bodylPS0_(G a, long b, G *c) { __tsan_write8(c); __real__Z10_ntl_gsmulP17_ntl_gbigint_bodylPS0_(a, b, c); }
void __real__Z8_ntl_gsqP17_ntl_gbigint_bodyPS0_(G, G *);
void __wrap__Z8_ntl_gsqP17_ntl_gbigint_bodyPS0_(G a, G *c) { __tsan_write8(c); __real__Z8_ntl_gsqP17_ntl_gbigint_bodyPS0_(a, c); }
void __real__Z9_ntl_gmodP17_ntl_gbigint_bodyS0_PS0_(G, G, G *);
void __wrap__Z9_ntl_gmodP17_ntl_gbigint_bodyS0_PS0_(G a, G b, G *c) { if (c) __tsan_write8(c); __real__Z9_ntl_gmodP17_ntl_gbigint_bodyS0_PS0_(a, b, c); }
void __real__Z9_ntl_gdivP17_ntl_gbigint_bodyS0_PS0_S1_(G, G, G *, G *);
void __wrap__Z9_ntl_gdivP17_ntl_gbigint_bodyS0_PS0_S1_(G a, G b, G *c, G *d) { if (c) __tsan_write8(c); if (d) __tsan_write8(d); __real__Z9_ntl_gdivP17_ntl_gbigint_bodyS0_PS0_S1_(a, b, c, d); }
void __real__Z11_ntl_gintozlPP17_ntl_gbigint_body(long, G *);
void __wrap__Z11_ntl_gintozlPP17_ntl_gbigint_body(long d, G *a) { __tsan_write8(a); __real__Z11_ntl_gintozlPP17_ntl_gbigint_body(d, a); }
void __real__Z12_ntl_guintozmPP17_ntl_gbigint_body(unsigned long, G *);
void __wrap__Z12_ntl_guintozmPP17_ntl_gbigint_body(unsigned long d, G *a) { __tsan_write8(a); __real__Z12_ntl_guintozmPP17_ntl_gbigint_body(d, a); }
void __real__Z12_ntl_glshiftP17_ntl_gbigint_bodylPS0_(G, long, G *);
void __wrap__Z12_ntl_glshiftP17_ntl_gbigint_bodylPS0_(G n, long k, G *b) { __tsan_write8(b); __real__Z12_ntl_glshiftP17_ntl_gbigint_bodylPS0_(n, k, b); }
void __real__Z12_ntl_grshiftP17_ntl_gbigint_bodylPS0_(G, long, G *);
void __wrap__Z12_ntl_grshiftP17_ntl_gbigint_bodylPS0_(G n, long k, G *b) { __tsan_write8(b); __real__Z12_ntl_grshiftP17_ntl_gbigint_bodylPS0_(n, k, b); }
void __real__Z12_ntl_gmulmodP17_ntl_gbigint_bodyS0_S0_PS0_(G, G, G, G *);
void __wrap__Z12_ntl_gmulmodP17_ntl_gbigint_bodyS0_S0_PS0_(G a, G b, G n, G *c) { __tsan_write8(c); __real__Z12_ntl_gmulmodP17_ntl_gbigint_bodyS0_S0_PS0_(a, b, n, c); }
void __real__Z12_ntl_gaddmodP17_ntl_gbigint_bodyS0_S0_PS0_(G, G, G, G *);
void __wrap__Z12_ntl_gaddmodP17_ntl_gbigint_bodyS0_S0_PS0_(G a, G b, G n, G *c) { __tsan_write8(c); __real__Z12_ntl_gaddmodP17_ntl_gbigint_bodyS0_S0_PS0_(a, b, n, c); }
void __real__Z12_ntl_gsubmodP17_ntl_gbigint_bodyS0_S0_PS0_(G, G, G, G *);
void __wrap__Z12_ntl_gsubmodP17_ntl_gbigint_bodyS0_S0_PS0_(G a, G b, G n, G *c) { __tsan_write8(c); __real__Z12_ntl_gsubmodP17_ntl_gbigint_bodyS0_S0_PS0_(a, b, n, c); }
void __real__Z10_ntl_gswapPP17_ntl_gbigint_bodyS1_(G *, G *);
void __wrap__Z10_ntl_gswapPP17_ntl_gbigint_bodyS1_(G *a, G *b) { __tsan_write8(a); __tsan_write8(b); __real__Z10_ntl_gswapPP17_ntl_gbigint_bodyS1_(a, b); }
void __real__Z10_ntl_gzeroPP17_ntl_gbigint_body(G *);
void __wrap__Z10_ntl_gzeroPP17_ntl_gbigint_body(G *a) { __tsan_write8(a); __real__Z10_ntl_gzeroPP17_ntl_gbigint_body(a); }
void __real__Z9_ntl_gonePP17_ntl_gbigint_body(G *);
void __wrap__Z9_ntl_gonePP17_ntl_gbigint_body(G *a) { __tsan_write8(a); __real__Z9_ntl_gonePP17_ntl_gbigint_body(a); }
void __real__Z12_ntl_gnegatePP17_ntl_gbigint_body(G *);
void __wrap__Z12_ntl_gnegatePP17_ntl_gbigint_body(G *a) { __tsan_write8(a); __real__Z12_ntl_gnegatePP17_ntl_gbigint_body(a); }
long __real__Z12_ntl_gsetbitPP17_ntl_gbigint_bodyl(G *, long);
long __wrap__Z12_ntl_gsetbitPP17_ntl_gbigint_bodyl(G *a, long b) { __tsan_write8(a); return __real__Z12_ntl_gsetbitPP17_ntl_gbigint_bodyl(a, b); }
void __real__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl(G *, const unsigned char *, long);
void __wrap__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl(G *x, const unsigned char *p, long n) { __tsan_write8(x); __real__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl(x, p, n); }
void __real__Z13_ntl_glowbitsP17_ntl_gbigint_bodylPS0_(G, long, G *);
void __wrap__Z13_ntl_glowbitsP17_ntl_gbigint_bodylPS0_(G a, long k, G *b) { __tsan_write8(b); __real__Z13_ntl_glowbitsP17_ntl_gbigint_bodylPS0_(a, k, b); }
}

// Crypto++ is shared; relaxed: no order between the threads
#define NEXT(sym, ...) \
  typedef __VA_ARGS__; \
  static T kept; \
  T f = __atomic_load_n(&kept, __ATOMIC_RELAXED); \
  if (!f) { \
    f = (T) dlsym(RTLD_NEXT, sym); \
    if (!f) __builtin_trap(); \
    __atomic_store_n(&kept, f, __ATOMIC_RELAXED); \
  }

// the state of a digest is prepared again after each one
void CryptoPP::SHA256::InitState(word32 *s) { NEXT("_ZN8CryptoPP6SHA2569InitStateEPj", void (*T)(word32 *)) __tsan_write_range(s, 32); f(s); }
void CryptoPP::SHA1::InitState(word32 *s) { NEXT("_ZN8CryptoPP4SHA19InitStateEPj", void (*T)(word32 *)) __tsan_write_range(s, 20); f(s); }
#endif
#endif
