// P08: integer operations compute the exact mathematical result.
#include "intops.h"

#include <cmath>
using namespace pbt;

// Operands related to one another more often than chance would have it.
static void operands(Src& s, bool big, Z& a, Z& b, int& i, bool exact) {
  a = genZ(s, big);
  switch (s.below(5)) {
    case 0:
      b = genZ(s, big);
      break;
    case 1:
      b = s.range(0, 6) - 3;
      break;
    case 2:
      b = a;
      break;
    case 3:
      b = -a + (s.range(0, 2) - 1);
      break;
    default: {  // a multiple
      Z k = genZ(s, false);
      b = k == 0 ? Z(1) : k;
      if (b != 0) a = (a / b) * b;
    }
  }
  if (exact && b != 0) a = (a / b) * b;
  static const int edge[] = {0, 1, -1, 2, -2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 10, -7, 65536};
  i = s.below(3) ? edge[s.below(12)] : (int)s.u64();
}

static void one_op(Case& c) {
  const auto& ops = int_ops();
  const IntOp& op = ops[c.s.below((uint32_t)ops.size())];
  bool big = c.s.pct(25);
  Z a, b, r, r2;
  int i;
  operands(c.s, big, a, b, i, op.call == ops[9].call);
  if (op.nz && b == 0) b = 1;
  int alias = (int)c.s.below(4);  // 0 none, 1 r is a, 2 r is b, 3 a is b
  if (alias == 3) b = a;
  if (op.nz && b == 0) discard();
  if (!op.model(a, b, i, r, r2)) discard();
  c.log << op.name << "(" << a << ", " << b << ", i=" << i << ") alias=" << alias << " expected " << r;
  if (op.kind == 3) c.log << " and " << r2;
  c.log << "\n";
  int ran = 0;
  for (int p : ALLPREC) {
    if (!fits_prec(p, a) || !fits_prec(p, b)) continue;
    if (!fits_prec(p, r) || !fits_prec(p, r2)) continue;
    ran++;
    OI A(p, a), B(p, b), R(p, Z(77)), R2(p, Z(-99));
    osl_int_t* pr = &R.v;
    osl_int_t* pr2 = &R2.v;
    const osl_int_t* pa = &A.v;
    const osl_int_t* pb = &B.v;
    if (alias == 1) pr = &A.v;
    if (alias == 2) pr = &B.v;
    if (alias == 3) pb = &A.v;
    int rc = 0;
    op.call(p, pr, pr2, *pa, *pb, i);
    CHECK(getZ(p, *pr) == r, op.name, op.name << " at " << precname(p) << " of (" << a << ", " << b << ", i=" << i
          << ") alias " << alias << " gives " << getZ(p, *pr) << ", not " << r);
    if (op.kind == 3)
      CHECK(R2.z() == r2, op.name, op.name << " at " << precname(p) << " of (" << a << ", " << b << ") gives remainder "
            << R2.z() << ", not " << r2);
    else
      CHECK(R2.z() == -99, op.name, "an unrelated integer changed");
    if (alias != 1) CHECK(A.z() == a, "operand-changed", op.name << " changed its first operand");
    if (alias != 2) CHECK(B.z() == b, "operand-changed", op.name << " changed its second operand");
    if (alias == 1 || alias == 2) CHECK(R.z() == 77, "operand-changed", "an unrelated integer changed");
    // remainder stored over an operand
    if (op.kind == 3 && alias == 0) {
      OI A2(p, a), B2(p, b), Q(p);
      osl_int_floor_div_q_r(p, &Q.v, c.s.flip() ? &A2.v : &B2.v, A2.v, B2.v);
      CHECK(Q.z() == r && (A2.z() == r2 || B2.z() == r2), op.name, "remainder stored over an operand is wrong");
    }
    (void)rc;
  }
  label(std::string(op.name));
  c.nontrivial = ran > 0 && (a != 0 || b != 0);
  if (!ran) discard();
}

static void predicates(Case& c) {
  bool big = c.s.pct(25);
  Z a, b;
  int i;
  operands(c.s, big, a, b, i, false);
  c.log << "predicates, sizes and conversions of " << a << " and " << b << "\n";
  c.nontrivial = a != 0;
  for (int p : ALLPREC) {
    if (!fits_prec(p, a) || !fits_prec(p, b)) continue;
    OI A(p, a), B(p, b);
    const osl_int_t x = A.v, y = B.v;
#define PRED(f, e) \
  CHECK((osl_int_##f != 0) == (e), "predicate", #f << " at " << precname(p) << " wrong for " << a << ", " << b)
    PRED(eq(p, x, y), a == b);
    PRED(ne(p, x, y), a != b);
    PRED(lt(p, x, y), a < b);
    PRED(le(p, x, y), a <= b);
    PRED(gt(p, x, y), a > b);
    PRED(ge(p, x, y), a >= b);
    PRED(pos(p, x), a > 0);
    PRED(neg(p, x), a < 0);
    PRED(zero(p, x), a == 0);
    PRED(one(p, x), a == 1);
    PRED(mone(p, x), a == -1);
    PRED(eq(p, x, x), true);
    if (b != 0) PRED(divisible(p, x, y), a % b == 0);
    size_t s2 = osl_int_size_in_base_2(p, x), s10 = osl_int_size_in_base_10(p, x);
    Z t = abs(a);
    size_t e2 = t.get_str(2).size(), e10 = t.get_str(10).size();
    CHECK(s2 == e2, "size2", "size_in_base_2 at " << precname(p) << " of " << a << " is " << s2 << ", not " << e2);
    // GMP's own size in base 10 may be one too large (documented)
    CHECK(s10 == e10 || (p == OSL_PRECISION_MP && s10 == e10 + 1), "size10",
          "size_in_base_10 at " << precname(p) << " of " << a << " is " << s10 << ", not " << e10);
    if (fits_int(a)) CHECK(Z(osl_int_get_si(p, x)) == a, "get_si", "get_si of " << a);
    if (fits64(a)) {
      CHECK(Z(osl_int_get_long(p, x)) == a, "get_long", "get_long of " << a);
      CHECK(Z((long)osl_int_get_long_long(p, x)) == a, "get_long_long", "get_long_long of " << a);
      double d = osl_int_get_d(p, x);
      double lo = (double)z2l(a);
      CHECK(d == lo || d == a.get_d(), "get_d", "get_d of " << a << " is " << d);
    }
    double dd = osl_int_get_d(p, x), da = a.get_d();  // (rounded to zero)
    CHECK(dd == da || dd == nextafter(da, a < 0 ? -INFINITY : INFINITY), "get_d", "get_d of " << a << " is " << dd);
    if (abs(a) < (Z(1) << 53)) CHECK(osl_int_get_d(p, x) == a.get_d(), "get_d", "get_d of " << a);
    CHECK(A.z() == a && B.z() == b, "operand-changed", "a predicate changed its operand");
  }
}

static void setters(Case& c) {
  Z a = genZ(c.s, false), b = genZ(c.s, false);
  c.log << "set/init/swap/convert " << a << ", " << b << "\n";
  c.nontrivial = a != 0;
  for (int p : ALLPREC) {
    long l = z2l(a);
    osl_int_t v;
    osl_int_init(p, &v);
    CHECK(getZ(p, v) == 0, "init", "a new integer is not zero");
    osl_int_set_long(p, &v, l);
    CHECK(getZ(p, v) == a, "set_long", "set_long(" << a << ") gives " << getZ(p, v));
    osl_int_set_si(p, &v, 3);
    osl_int_set_long_long(p, &v, l);
    CHECK(getZ(p, v) == a, "set_long_long", "set_long_long(" << a << ") gives " << getZ(p, v));
    osl_int_clear(p, &v);
    osl_int_init_set_long(p, &v, l);
    CHECK(getZ(p, v) == a, "init_set_long", "init_set_long(" << a << ") gives " << getZ(p, v));
    osl_int_clear(p, &v);
    osl_int_init_set_long_long(p, &v, l);
    CHECK(getZ(p, v) == a, "init_set_long_long", "init_set_long_long(" << a << ") gives " << getZ(p, v));
    osl_int_t w;
    osl_int_init_set(p, &w, v);
    CHECK(getZ(p, w) == a, "init_set", "init_set gives another value");
    putZ(p, &w, b);
    CHECK(getZ(p, v) == a, "shared", "init_set shares storage");
    osl_int_swap(p, &v, &w);
    CHECK(getZ(p, v) == b && getZ(p, w) == a, "swap", "swap of " << a << " and " << b);
    osl_int_swap(p, &v, &v);
    CHECK(getZ(p, v) == b, "swap", "swap of an integer with itself");
    osl_int_clear(p, &w);
    osl_int_clear(p, &v);
    if (fits_int(a)) {
      osl_int_init_set_si(p, &v, (int)l);
      CHECK(getZ(p, v) == a, "init_set_si", "init_set_si(" << a << ")");
      osl_int_set_si(p, &v, 0);
      osl_int_set_si(p, &v, (int)l);
      CHECK(getZ(p, v) == a, "set_si", "set_si(" << a << ")");
      osl_int_clear(p, &v);
    }
    osl_int_t* h = osl_int_malloc(p);
    CHECK(getZ(p, *h) == 0, "malloc", "a new integer is not zero");
    osl_int_free(p, h);
    CHECK(osl_int_is_precision_supported(p), "supported", "precision not supported");
    for (int q : ALLPREC) {
      osl_int_init(p, &v);
      putZ(p, &v, a);
      osl_int_set_precision(p, q, &v);
      CHECK(getZ(q, v) == a, "set_precision", "converting " << a << " from " << precname(p) << " to " << precname(q)
            << " gives " << getZ(q, v));
      osl_int_clear(q, &v);
    }
  }
}

// A history of operations over a small register file, results stored anywhere.
static void history(Case& c) {
  const auto& ops = int_ops();
  int p = ALLPREC[c.s.below(3)];
  const int N = 4;
  std::vector<Z> m;
  OI* regs[N];
  for (int k = 0; k < N; k++) {
    m.push_back(genZ(c.s, p == OSL_PRECISION_MP));
    regs[k] = new OI(p, m[k]);
  }
  struct D {
    OI** r;
    ~D() { for (int k = 0; k < 4; k++) delete r[k]; }
  } d{regs};
  int steps = 1 + c.s.small(20), done = 0;
  c.log << precname(p) << " registers";
  for (auto& z : m) c.log << " " << z;
  c.log << "\n";
  for (int k = 0; k < steps; k++) {
    const IntOp& op = ops[c.s.below((uint32_t)ops.size())];
    int a = c.s.below(N), b = c.s.below(N), r = c.s.below(N), q = (r + 1 + c.s.below(N - 1)) % N;
    int i = c.s.flip() ? (int)c.s.below(20) - 10 : (int)c.s.u64();
    Z x, y;
    if (op.nz && m[b] == 0) continue;
    if (!op.model(m[a], m[b], i, x, y)) continue;
    if (!fits_prec(p, x) || !fits_prec(p, y)) continue;
    if (mpz_sizeinbase(x.get_mpz_t(), 2) > 4000) continue;
    c.log << "  r" << r << (op.kind == 3 ? ",r" + std::to_string(q) : "") << " = " << op.name << "(r" << a << ", r" << b
          << ", " << i << ")\n";
    op.call(p, &regs[r]->v, &regs[q]->v, regs[a]->v, regs[b]->v, i);
    m[r] = x;
    if (op.kind == 3) m[q] = y;
    done++;
    for (int j = 0; j < N; j++)
      CHECK(regs[j]->z() == m[j], op.name, "after " << op.name << " register " << j << " is " << regs[j]->z() << ", not "
            << m[j]);
  }
  c.nontrivial = done >= 2;
}

Property pbt::property = {
    "P08",
    "operands near powers of two, limits of int and 64 bits, related operands, every alias of result and operands; a "
    "case is non-trivial when at least one operand is non-zero and the operation was run at one precision or more "
    "(histories: at least two operations)",
    {{"operation", one_op, 400000, 8000000, true},
     {"predicates", predicates, 150000, 3000000, true},
     {"setters", setters, 100000, 2000000, true},
     {"history", history, 60000, 1500000, true}}};
