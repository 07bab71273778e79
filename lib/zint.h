// Library integers <-> GMP reference integers, written without the library's own functions.
#pragma once
#include <gmpxx.h>
#include <limits.h>

#include <string>

#include "pbt.h"
extern "C" {
#include <osl/osl.h>
#include <osl/extensions/annotation.h>
#include <osl/extensions/irregular.h>
#include <osl/extensions/region.h>
}
typedef mpz_class Z;

inline bool fits64(const Z& z) {
  static const Z lo = -(Z(1) << 63), hi = (Z(1) << 63) - 1;
  return z >= lo && z <= hi;
}
inline bool fits_prec(int prec, const Z& z) { return prec == OSL_PRECISION_MP || fits64(z); }
inline bool fits_int(const Z& z) { return z >= INT_MIN && z <= INT_MAX; }
inline long z2l(const Z& z) { return mpz_get_si(z.get_mpz_t()); }

inline Z getZ(int prec, const osl_int_t v) {
  if (prec == OSL_PRECISION_SP) return Z(v.sp);
  if (prec == OSL_PRECISION_DP) return Z((long)v.dp);
  return Z(*v.mp);
}
// Stores into an initialised integer.
inline void putZ(int prec, osl_int_t* v, const Z& z) {
  if (prec == OSL_PRECISION_SP)
    v->sp = z2l(z);
  else if (prec == OSL_PRECISION_DP)
    v->dp = z2l(z);
  else
    mpz_set(*v->mp, z.get_mpz_t());
}
inline const char* precname(int p) {
  return p == OSL_PRECISION_SP ? "SP" : p == OSL_PRECISION_DP ? "DP" : "MP";
}
static const int ALLPREC[3] = {OSL_PRECISION_MP, OSL_PRECISION_SP, OSL_PRECISION_DP};

// Interesting integers: small, near powers of two and ten, at the limits of int and of
// 64 bits, and (when big) beyond.
inline Z genZ(pbt::Src& s, bool big) {
  Z r;
  switch (s.below(big ? 8 : 7)) {
    case 0:
    case 1:
      r = s.range(0, 20) - 0;
      break;
    case 2:
      r = (int)s.below(2000);
      break;
    case 3: {  // near a power of two
      unsigned k = s.below(64);
      r = (Z(1) << k) + s.range(0, 4) - 2;
      break;
    }
    case 4: {  // near the limits
      static const char* lim[] = {"2147483647", "2147483648", "4294967295", "4294967296",
                                  "9223372036854775807", "9223372036854775808",
                                  "1000000000000000000", "3037000499", "3037000500"};
      r = Z(lim[s.below(9)]) - s.range(0, 2);
      break;
    }
    case 5: {
      Z p = 1;
      unsigned k = s.below(19);
      for (unsigned i = 0; i < k; i++) p *= 10;
      r = p - s.range(0, 2);
      break;
    }
    case 6: {
      uint64_t u = s.u64() >> s.below(64);
      mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &u);
      break;
    }
    default: {
      unsigned k = 60 + s.below(300);
      uint64_t u = s.u64();
      Z t;
      mpz_import(t.get_mpz_t(), 1, 1, 8, 0, 0, &u);
      r = (Z(1) << k) + t - s.range(0, 3);
    }
  }
  if (s.flip()) r = -r;
  if (!big) {
    if (r > (Z(1) << 63) - 1) r = (Z(1) << 63) - 1;
    if (r < -(Z(1) << 63)) r = -(Z(1) << 63);
  }
  return r;
}

// An integer owned by the harness (allocated as the library does).
struct OI {
  int prec;
  osl_int_t v;
  explicit OI(int p) : prec(p) { osl_int_init(p, &v); }
  OI(int p, const Z& z) : prec(p) {
    osl_int_init(p, &v);
    putZ(p, &v, z);
  }
  OI(const OI&) = delete;
  ~OI() { osl_int_clear(prec, &v); }
  Z z() const { return getZ(prec, v); }
};
