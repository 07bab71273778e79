// Table of the integer operations, with their mathematical meaning.
#pragma once
#include <vector>

#include "zint.h"

struct IntOp {
  const char* name;
  int kind;     // 0: r = f(a,b)   1: r = f(a)   2: r = f(a, int i)   3: (q,r) = f(a,b)
  bool nz;      // b must not be zero
  bool overflow_reported;  // P09 covers it
  void (*call)(int, osl_int_t*, osl_int_t*, const osl_int_t, const osl_int_t, int);
  // false when the operation is not defined on these operands
  bool (*model)(const Z& a, const Z& b, int i, Z& r, Z& r2);
};

#define C_(e) [](int p, osl_int_t * r, osl_int_t * r2, const osl_int_t a, const osl_int_t b, int i) { e; }
#define M_(e) [](const Z& a, const Z& b, int i, Z& r, Z& r2) -> bool { e; return true; }
inline Z zfdiv(const Z& a, const Z& b) {
  Z q;
  mpz_fdiv_q(q.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
  return q;
}
inline Z zgcd(Z a, Z b) {
  a = abs(a);
  b = abs(b);
  while (b != 0) {
    Z t = a % b;
    a = b;
    b = t;
  }
  return a;
}
inline const std::vector<IntOp>& int_ops() {
  static const std::vector<IntOp> ops = {
      {"add", 0, false, true, C_(osl_int_add(p, r, a, b)), M_(r = a + b)},
      {"sub", 0, false, true, C_(osl_int_sub(p, r, a, b)), M_(r = a - b)},
      {"mul", 0, false, true, C_(osl_int_mul(p, r, a, b)), M_(r = a * b)},
      {"add_si", 2, false, true, C_(osl_int_add_si(p, r, a, i)), M_(r = a + i)},
      {"mul_si", 2, false, true, C_(osl_int_mul_si(p, r, a, i)), M_(r = a * i)},
      {"increment", 1, false, true, C_(osl_int_increment(p, r, a)), M_(r = a + 1)},
      {"decrement", 1, false, true, C_(osl_int_decrement(p, r, a)), M_(r = a - 1)},
      {"oppose", 1, false, true, C_(osl_int_oppose(p, r, a)), M_(r = -a)},
      {"abs", 1, false, true, C_(osl_int_abs(p, r, a)), M_(r = abs(a))},
      {"div_exact", 0, true, false, C_(osl_int_div_exact(p, r, a, b)),
       M_(if (a % b != 0) return false; r = a / b)},
      {"floor_div_q", 0, true, false, C_(osl_int_floor_div_q(p, r, a, b)), M_(r = zfdiv(a, b))},
      {"floor_div_r", 0, true, false, C_(osl_int_floor_div_r(p, r, a, b)),
       M_(r = a - zfdiv(a, b) * b)},
      {"floor_div_q_r", 3, true, false, C_(osl_int_floor_div_q_r(p, r, r2, a, b)),
       M_(r = zfdiv(a, b); r2 = a - r * b)},
      {"mod", 0, true, false, C_(osl_int_mod(p, r, a, b)), M_(r = a % b; if (r < 0) r += abs(b))},
      {"gcd", 0, false, false, C_(osl_int_gcd(p, r, a, b)), M_(r = zgcd(a, b))},
      {"lcm", 0, false, false, C_(osl_int_lcm(p, r, a, b)),
       M_(if (a == 0 || b == 0) r = 0; else r = abs(a) / zgcd(a, b) * abs(b))},
      {"assign", 1, false, false, C_(osl_int_assign(p, r, a)), M_(r = a)},
      {"set_si", 2, false, false, C_(osl_int_set_si(p, r, i)), M_(r = i)},
  };
  return ops;
}
