// P09: an integer result which does not fit is reported, and only then.
#include "intops.h"
using namespace pbt;

static const Z LO = -(Z(1) << 63), HI = (Z(1) << 63) - 1;

// Operands whose result lies close to a limit, on either side.
static void near(Src& s, int op, Z& a, Z& b, int& i) {
  Z lim = s.flip() ? HI : LO;
  Z t = lim + (s.range(0, 6) - 3);  // the aimed result
  b = genZ(s, false);
  static const int edge[] = {0, 1, -1, 2, -2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 10, -7, 65536};
  i = s.below(3) ? edge[s.below(12)] : (int)s.u64();
  switch (op) {
    case 0: a = t - b; break;
    case 1: a = t + b; break;
    case 2:
      if (b == 0) b = 1;
      a = t / b + (s.range(0, 2) - 1);
      if (s.flip()) std::swap(a, b);
      break;
    case 3: a = t - i; break;
    case 4: a = i ? Z(t / i + (s.range(0, 2) - 1)) : t; break;
    default: a = t;
  }
  if (s.pct(15)) a = genZ(s, false);
  if (s.pct(5)) a = lim;
  if (a > HI) a = HI;
  if (a < LO) a = LO;
  if (b > HI) b = HI;
  if (b < LO) b = LO;
}

static void reported(Case& c) {
  const auto& ops = int_ops();
  uint32_t k = c.s.below(9);
  const IntOp& op = ops[k];
  Z a, b, r, r2;
  int i;
  near(c.s, (int)k, a, b, i);
  int alias = (int)c.s.below(4);
  if (alias == 3) b = a;
  op.model(a, b, i, r, r2);
  int p = c.s.flip() ? OSL_PRECISION_SP : OSL_PRECISION_DP;
  bool fit = fits64(r);
  c.log << op.name << " at " << precname(p) << " (" << a << ", " << b << ", i=" << i << ") alias " << alias << ": " << r
        << (fit ? " fits" : " does not fit") << "\n";
  label(std::string(op.name) + (fit ? " fits" : " overflows"));
  c.nontrivial = abs(r) > (Z(1) << 62);
  OI A(p, a), B(p, b), R(p, Z(5)), R2(p);
  osl_int_t* pr = alias == 1 ? &A.v : alias == 2 ? &B.v : &R.v;
  const osl_int_t* pb = alias == 3 ? &A.v : &B.v;
  bool ex = exits([&] { op.call(p, pr, &R2.v, A.v, *pb, i); });
  if (fit) {
    CHECK(!ex, "false-overflow", op.name << " reports an overflow although " << r << " fits");
    CHECK(getZ(p, *pr) == r, op.name, op.name << " gives " << getZ(p, *pr) << ", not " << r);
  } else {
    CHECK(ex, "silent-overflow", op.name << " stored " << getZ(p, *pr) << " instead of reporting that " << r
          << " does not fit");
    if (alias != 1) CHECK(A.z() == a, "operand-changed", "operand changed");
    if (alias != 2) CHECK(B.z() == b, "operand-changed", "operand changed");
  }
}

static void conversions(Case& c) {
  Z a = genZ(c.s, true);
  if (c.s.flip()) {
    static const Z base[] = {Z(INT_MAX), Z(INT_MIN), HI, LO, (Z(1) << 64), -(Z(1) << 64), Z(1) << 32};
    a = base[c.s.below(7)] + (c.s.range(0, 6) - 3);
  }
  c.log << "conversions of " << a << "\n";
  c.nontrivial = !fits_int(a) || abs(a) > INT_MAX - 5;
  for (int p : ALLPREC) {
    if (!fits_prec(p, a)) continue;
    OI A(p, a);
    int si = 0;
    long l = 0;
    long long ll = 0;
    bool e1 = exits([&] { si = osl_int_get_si(p, A.v); });
    CHECK(e1 == !fits_int(a), "get_si", "get_si of " << a << (e1 ? " reports an overflow" : " is accepted"));
    bool e2 = exits([&] { l = osl_int_get_long(p, A.v); });
    CHECK(e2 == !fits64(a), "get_long", "get_long of " << a);
    bool e3 = exits([&] { ll = osl_int_get_long_long(p, A.v); });
    CHECK(e3 == !fits64(a), "get_long_long", "get_long_long of " << a);
    if (!e1) CHECK(a == si, "get_si", "value " << si << " for " << a);
    if (!e2) CHECK(a == l, "get_long", "value " << l << " for " << a);
    if (!e3) CHECK(a == (long)ll, "get_long_long", "value " << ll << " for " << a);
    CHECK(A.z() == a, "operand-changed", "conversion changed its operand");
    for (int q : ALLPREC) {
      osl_int_t v;
      osl_int_init(p, &v);
      putZ(p, &v, a);
      bool e = exits([&] { osl_int_set_precision(p, q, &v); });
      CHECK(e == !fits_prec(q, a), "set_precision", "conversion of " << a << " from " << precname(p) << " to "
            << precname(q) << (e ? " reports an overflow" : " is accepted"));
      if (e) {
        osl_int_clear(p, &v);
      } else {
        CHECK(getZ(q, v) == a, "set_precision", "conversion of " << a << " gives " << getZ(q, v));
        osl_int_clear(q, &v);
      }
    }
    // from text
    std::string t = a.get_str();
    for (int q : ALLPREC) {
      OI R(q, Z(4));
      bool e = exits([&] { osl_int_sscanf(t.c_str(), q, &R.v); });
      CHECK(e == !fits_prec(q, a), "sscanf", "reading " << t << " at " << precname(q)
            << (e ? " reports an overflow" : " is accepted"));
      if (!e) CHECK(R.z() == a, "sscanf", "reading " << t << " gives " << R.z());
    }
  }
}

// Vectors and relations go through the same arithmetic.
static void vectors(Case& c) {
  int p = c.s.flip() ? OSL_PRECISION_SP : OSL_PRECISION_DP;
  int n = c.s.range(2, 4), op = (int)c.s.below(6);
  std::vector<Z> x(n), y(n), r(n);
  bool fit = true;
  int k = (int)(c.s.flip() ? c.s.range(0, 20) - 10 : (int)c.s.u64());
  int hot = (int)c.s.below(n);
  for (int j = 0; j < n; j++) {
    int dummy;
    if (j == hot)
      near(c.s, op == 1 || op == 5 ? 1 : op == 3 ? 2 : 0, x[j], y[j], dummy);
    else
      x[j] = c.s.range(0, 9) - 4, y[j] = c.s.range(0, 9) - 4;
  }
  if (op == 3 && k) x[hot] = (c.s.flip() ? HI : LO) / k + (c.s.range(0, 2) - 1);
  if (op == 2) x[n - 1] = (k > 0 ? HI : LO) - k + (c.s.range(0, 2) - 1);
  for (auto& z : x) if (!fits64(z)) discard();
  osl_vector_t* u = osl_vector_pmalloc(p, n);
  osl_vector_t* v = osl_vector_pmalloc(p, n);
  bool tagged = op >= 4;
  if (tagged) x[0] = 1, y[0] = 1;
  for (int j = 0; j < n; j++) {
    putZ(p, &u->v[j], x[j]);
    putZ(p, &v->v[j], y[j]);
    if (op == 0 || op == 4) r[j] = x[j] + y[j];
    if (op == 1 || op == 5) r[j] = x[j] - y[j];
    if (op == 2) r[j] = j == n - 1 ? Z(x[j] + k) : x[j];
    if (op == 3) r[j] = x[j] * k;
    if (tagged && j == 0) r[j] = 1;
    if (!fits64(r[j])) fit = false;
  }
  static const char* nm[] = {"vector_add", "vector_sub", "vector_add_scalar", "vector_mul_scalar",
                             "relation_add_vector", "relation_sub_vector"};
  c.log << nm[op] << " at " << precname(p) << " k=" << k;
  for (int j = 0; j < n; j++) c.log << " (" << x[j] << "," << y[j] << ")";
  c.log << (fit ? " fits" : " overflows") << "\n";
  label(std::string(nm[op]) + (fit ? " fits" : " overflows"));
  c.nontrivial = true;
  osl_vector_t* w = nullptr;
  osl_relation_t* rel = nullptr;
  if (tagged) rel = osl_relation_from_vector(u);
  bool ex = exits([&] {
    if (op == 0) w = osl_vector_add(u, v);
    if (op == 1) w = osl_vector_sub(u, v);
    if (op == 2) w = osl_vector_add_scalar(u, k);
    if (op == 3) w = osl_vector_mul_scalar(u, k);
    if (op == 4) osl_relation_add_vector(rel, v, 0);
    if (op == 5) osl_relation_sub_vector(rel, v, 0);
  });
  CHECK(ex == !fit, fit ? "false-overflow" : "silent-overflow", nm[op] << (ex ? " reports an overflow" : " is silent"));
  if (!ex)
    for (int j = 0; j < n; j++)
      CHECK(getZ(p, tagged ? rel->m[0][j] : w->v[j]) == r[j], nm[op], "component " << j << " is not " << r[j]);
  osl_vector_free(u);
  osl_vector_free(v);
  if (w) osl_vector_free(w);
  osl_relation_free(rel);
}

Property pbt::property = {
    "P09",
    "operands aimed so that the result lies within 3 of a limit of the precision; non-trivial when the exact result "
    "exceeds 2^62 in magnitude (conversions: outside or within 5 of the limits of int)",
    {{"reported", reported, 400000, 8000000, true},
     {"conversions", conversions, 120000, 2000000, true},
     {"vectors", vectors, 150000, 2000000, true}}};
