// P11: vectors behave as integer vectors.
#include "zint.h"
using namespace pbt;
typedef std::vector<Z> V;

struct MV {
  osl_vector_t* v;
  V m;
  int p;
};
static void compare(const MV& x, const char* op) {
  CHECK(x.v->precision == x.p, "precision", op << ": precision changed");
  CHECK(x.v->size == (int)x.m.size(), "size", op << ": size is " << x.v->size << ", not " << x.m.size());
  for (size_t k = 0; k < x.m.size(); k++)
    CHECK(getZ(x.p, x.v->v[k]) == x.m[k], op, op << ": component " << k << " is " << getZ(x.p, x.v->v[k]) << ", not "
          << x.m[k]);
}
static bool allfit(int p, const V& v) {
  for (auto& z : v)
    if (!fits_prec(p, z)) return false;
  return true;
}
static std::string show(const V& v) {
  std::string s = "[";
  for (auto& z : v) s += z.get_str() + " ";
  return s + "]";
}

static void history(Case& c) {
  int p = ALLPREC[c.s.below(3)];
  int n = c.s.pct(10) ? c.s.range(0, 40) : c.s.range(1, 6);
  bool wide = c.s.flip();
  std::vector<MV> pool;
  auto gen = [&]() { return wide ? genZ(c.s, p == OSL_PRECISION_MP) : Z(c.s.range(0, 12) - 6); };
  auto fresh = [&](int size) {
    MV x;
    x.p = p;
    x.v = osl_vector_pmalloc(p, size);
    x.m.assign(size, 0);
    compare(x, "pmalloc");
    return x;
  };
  for (int k = 0; k < 3; k++) {
    MV x = fresh(n);
    for (int j = 0; j < n; j++) {
      x.m[j] = gen();
      putZ(p, &x.v->v[j], x.m[j]);
    }
    pool.push_back(x);
    c.log << "v" << k << " = " << show(x.m) << " " << precname(p) << "\n";
  }
  int steps = 1 + c.s.small(24), done = 0;
  for (int s = 0; s < steps; s++) {
    size_t a = c.s.below(pool.size()), b = c.s.below(pool.size());
    if (c.s.pct(15)) b = a;
    int k = c.s.pct(70) ? c.s.range(0, 10) - 5 : (int)c.s.u64();
    int op = (int)c.s.below(11);
    MV r;
    r.p = p;
    r.v = nullptr;
    r.m = pool[a].m;
    size_t sz = pool[a].m.size();
    bool same = sz == pool[b].m.size();
    switch (op) {
      case 0:
      case 1:
        if (!same) {
          bool ex = exits([&] { r.v = op ? osl_vector_sub(pool[a].v, pool[b].v) : osl_vector_add(pool[a].v, pool[b].v); });
          CHECK(ex, "size-mismatch", "vectors of different sizes are added");
          goto compare_all;
        }
        for (size_t j = 0; j < sz; j++) r.m[j] = op ? Z(r.m[j] - pool[b].m[j]) : Z(r.m[j] + pool[b].m[j]);
        if (!allfit(p, r.m)) continue;
        r.v = op ? osl_vector_sub(pool[a].v, pool[b].v) : osl_vector_add(pool[a].v, pool[b].v);
        c.log << "v" << pool.size() << " = " << (op ? "sub" : "add") << "(v" << a << ", v" << b << ")\n";
        compare(r, op ? "vector_sub" : "vector_add");
        break;
      case 2:
        if (sz < 2) continue;
        r.m[sz - 1] += k;
        if (!allfit(p, r.m)) continue;
        r.v = osl_vector_add_scalar(pool[a].v, k);
        c.log << "v" << pool.size() << " = add_scalar(v" << a << ", " << k << ")\n";
        compare(r, "vector_add_scalar");
        break;
      case 3:
        for (auto& z : r.m) z *= k;
        if (!allfit(p, r.m)) continue;
        r.v = osl_vector_mul_scalar(pool[a].v, k);
        c.log << "v" << pool.size() << " = mul_scalar(v" << a << ", " << k << ")\n";
        compare(r, "vector_mul_scalar");
        break;
      case 4:
      case 5:
        if (!sz) {
          CHECK(exits([&] { op == 4 ? osl_vector_tag_equality(pool[a].v) : osl_vector_tag_inequality(pool[a].v); }),
                "tag", "an empty vector is tagged");
          goto compare_all;
        }
        if (op == 4)
          osl_vector_tag_equality(pool[a].v);
        else
          osl_vector_tag_inequality(pool[a].v);
        pool[a].m[0] = op == 4 ? 0 : 1;
        c.log << "tag(v" << a << ", " << op - 4 << ")\n";
        break;
      case 6: {
        bool eq = pool[a].m == pool[b].m;
        CHECK((osl_vector_equal(pool[a].v, pool[b].v) != 0) == eq, "equal", "equal(v" << a << ", v" << b << ") is not "
              << eq);
        CHECK(!osl_vector_equal(pool[a].v, nullptr) && !osl_vector_equal(nullptr, pool[a].v), "equal",
              "a vector equals an absent one");
        CHECK(osl_vector_equal(nullptr, nullptr), "equal", "two absent vectors differ");
        break;
      }
      case 7: {
        bool sc = true;
        for (size_t j = 0; j + 1 < sz; j++)
          if (pool[a].m[j] != 0) sc = false;
        CHECK((osl_vector_is_scalar(pool[a].v) != 0) == sc, "is_scalar", "is_scalar(" << show(pool[a].m) << ") is not "
              << sc);
        CHECK(!osl_vector_is_scalar(nullptr), "is_scalar", "an absent vector is a scalar");
        break;
      }
      case 8: {  // an equal copy, or one which differs in a single place
        MV x = fresh((int)sz);
        x.m = pool[a].m;
        for (size_t j = 0; j < sz; j++) putZ(p, &x.v->v[j], x.m[j]);
        pool.push_back(x);
        c.log << "v" << pool.size() - 1 << " = copy of v" << a << "\n";
        CHECK(osl_vector_equal(pool[a].v, pool.back().v), "equal", "equal vectors are told different");
        if (sz && c.s.flip()) {
          size_t j = c.s.below((uint32_t)sz);
          Z old = pool.back().m[j], z = gen();
          if (z != old) {
            putZ(p, &pool.back().v->v[j], z);
            pool.back().m[j] = z;
            CHECK(!osl_vector_equal(pool[a].v, pool.back().v) && !osl_vector_equal(pool.back().v, pool[a].v), "equal",
                  "vectors which differ in component " << j << " are told equal");
          }
        }
        break;
      }
      case 9: {
        pool.push_back(fresh(c.s.range(0, 6)));
        c.log << "v" << pool.size() - 1 << " = zero vector of size " << pool.back().m.size() << "\n";
        break;
      }
      default: {  // write one component
        if (!sz) continue;
        size_t j = c.s.below((uint32_t)sz);
        pool[a].m[j] = c.s.flip() ? Z(0) : gen();
        putZ(p, &pool[a].v->v[j], pool[a].m[j]);
        c.log << "v" << a << "[" << j << "] = " << pool[a].m[j] << "\n";
      }
    }
    if (r.v) pool.push_back(r);
    done++;
  compare_all:
    for (auto& x : pool) compare(x, "after an operation on another vector");
    if (pool.size() > 12) {
      osl_vector_free(pool[1].v);
      pool.erase(pool.begin() + 1);
    }
  }
  c.nontrivial = done >= 2 && n >= 2;
  for (auto& x : pool) osl_vector_free(x.v);
}

// A vector of default precision, and vectors of two precisions.
static void mixed(Case& c) {
  int n = c.s.range(1, 5);
  int p = ALLPREC[c.s.below(3)], q = ALLPREC[c.s.below(3)];
  osl_vector_t* a = osl_vector_pmalloc(p, n);
  osl_vector_t* b = osl_vector_pmalloc(q, n);
  osl_vector_t* d = osl_vector_malloc(n);
  CHECK(d->precision == osl_util_get_precision() && d->size == n, "malloc", "default precision");
  for (int j = 0; j < n; j++) {
    Z z = genZ(c.s, false);
    putZ(p, &a->v[j], z);
    putZ(q, &b->v[j], z);
    CHECK(getZ(d->precision, d->v[j]) == 0, "malloc", "not zero");
  }
  c.nontrivial = p != q;
  c.log << "size " << n << " precisions " << precname(p) << ", " << precname(q) << "\n";
  if (p != q) {
    osl_vector_t* r;
    CHECK(exits([&] { r = osl_vector_add(a, b); }), "precision-mismatch", "vectors of two precisions are added");
    CHECK(exits([&] { r = osl_vector_sub(a, b); }), "precision-mismatch", "vectors of two precisions are subtracted");
    CHECK(!osl_vector_equal(a, b), "equal", "vectors of two precisions are equal");
  } else
    CHECK(osl_vector_equal(a, b), "equal", "vectors of the same content differ");
  osl_vector_free(a);
  osl_vector_free(b);
  osl_vector_free(d);
  osl_vector_free(nullptr);
}

Property pbt::property = {
    "P11",
    "random programs over a pool of vectors against a model of exact integer vectors, the whole pool compared after "
    "every step; non-trivial: at least two operations on vectors of two components or more (mixed: two precisions)",
    {{"history", history, 120000, 2500000, true}, {"mixed", mixed, 30000, 300000, true}}};
