// P06: equality means equal content.
// The expected answer is that of the model (trees of named fields compared field by field),
// after dropping what is documented as ignored: the order of the extensions of a list, the
// order of the elements of arrays, loops (and the statements of a loop) and accesses of an
// extbody, the content of comments and textual, and the registry's tail and user fields.
#include <algorithm>

#include "scop.h"
using namespace pbt;

static void sortT(std::vector<T>& v) {
  std::sort(v.begin(), v.end(), [](const T& a, const T& b) { return show(a) < show(b); });
}
static void canon_list(std::vector<T>& v);
static void canon(T& t) {  // an extension, by its tag
  if (t.name == "comment") t.c.clear();
  if (t.name == "textual") t = T::list("textual");
  if (t.k == T::NIL) return;
  if (t.name == "arrays") sortT(t.c);
  if (t.name == "extbody") sortT(t.at("accesses").c);
  if (t.name == "loop") {
    for (auto& e : t.c) sortT(e.at("stmts").c);
    sortT(t.c);
  }
  if (t.name == "symbols")
    for (auto& e : t.c)
      for (auto& f : e.c)
        if (f.k == T::LIST) canon_list(f.c);
}
static void canon_list(std::vector<T>& v) {
  for (auto& e : v) canon(e);
  sortT(v);
}
static void canon(MStmt& m) { canon_list(m.ext); }
static void canon(MScop& m) {
  canon_list(m.ext);
  canon_list(m.params);
  for (auto& s : m.stmts) canon(s);
  m.registry.clear();
}
template <class X>
static void canon(std::vector<X>& v) {
  for (auto& x : v) canon(x);
}
static GExt xoptions(Case& c) {
  GExt g;
  g.prec = ALLPREC[c.s.below(3)];
  g.big = c.s.pct(4);
  g.readable = c.s.pct(30);
  g.nil = !g.readable;
  return g;
}
static void verdict(bool got, bool back, bool want, const std::string& d) {
  label(want ? "equal" : "different");
  if (want)
    CHECK(got && back, "denied", "equal objects are said different (" << got << ", exchanged " << back << ")");
  else
    CHECK(!got && !back, "missed", "objects that differ are said equal (" << got << ", exchanged " << back << "): " << d);
}
template <class V>
static void shuffle(Src& s, V& v) {
  for (size_t i = v.size(); i > 1; i--)
    if (s.flip()) std::swap(v[i - 1], v[s.below((uint32_t)i)]);
}
static void reorder(Src& s, T& t) {  // what does not matter
  if (t.name == "arrays" || t.name == "loop") shuffle(s, t.c);
  if (t.name == "extbody" && t.k == T::LIST) shuffle(s, t.at("accesses").c);
  if (t.name == "loop")
    for (auto& e : t.c) shuffle(s, e.at("stmts").c);
  if (t.name == "symbols")
    for (auto& e : t.c)
      for (auto& f : e.c)
        if (f.k == T::LIST) {
          for (auto& x : f.c) reorder(s, x);
          shuffle(s, f.c);
        }
}
static void permute(Src& s, T& t) {  // exchanges two neighbours of a list somewhere (often it matters)
  std::vector<T*> v;
  std::function<void(T&)> walk = [&](T& x) {
    if (x.k == T::LIST) {
      bool un = x.c.size() > 1;
      for (auto& e : x.c) un = un && e.name.empty();
      if (un) v.push_back(&x);
      for (auto& e : x.c) walk(e);
    }
  };
  walk(t);
  if (v.empty()) return;
  T& x = *v[s.below((uint32_t)v.size())];
  size_t i = s.below((uint32_t)x.c.size() - 1);
  std::swap(x.c[i], x.c[i + 1]);
}
// The same elements, one more time in one of the two: different elements.
static void uneven(Src& s, T& a, T& b) {
  std::vector<T*> v, w;
  std::function<void(T&, std::vector<T*>&)> walk = [&](T& x, std::vector<T*>& to) {
    if (x.k != T::LIST) return;
    bool un = x.c.size() > 1;
    for (auto& e : x.c) un = un && e.name.empty();
    if (un) to.push_back(&x);
    for (auto& e : x.c) walk(e, to);
  };
  walk(a, v);
  walk(b, w);
  if (v.empty()) return;
  size_t k = s.below(v.size());
  T &x = *v[k], &y = *w[k];
  size_t n = x.c.size();
  x.c.push_back(x.c[s.below(n)]);
  y.c.push_back(y.c[s.below(n)]);
  if (s.flip()) {  // in the same order
    std::swap(x.c.back(), x.c.front());
    std::swap(y.c.back(), y.c.front());
  }
}
static void extension(Case& c) {
  GExt g = xoptions(c);
  std::string u = c.s.pick(EXT_URIS);
  label(u);
  T a = gen_ext(c.s, u, g), b = a;
  std::string how = "copy";
  switch (u == "irregular" ? c.s.below(6) : c.s.below(7)) {
    case 6:
      uneven(c.s, a, b);
      how = "uneven";
      break;
    case 0:
      break;
    case 1:
      reorder(c.s, b);
      how = "reordered";
      break;
    case 2:
      b = gen_ext(c.s, u, g);
      how = "another";
      break;
    case 3:
      permute(c.s, b);
      how = "permuted";
      break;
    default:
      how = mutate(c.s, b);
      if (c.s.pct(20)) reorder(c.s, b);
  }
  c.nontrivial = how != "copy";
  if (c.rendering) c.log << how << "\n" << show(a) << "--\n" << show(b);
  if (u == "textual" && (a.k == T::NIL || b.k == T::NIL)) discard();
  osl_interface_t* it = ext_interface(u);
  void *x = build_data(a), *y = build_data(b);
  T ca = a, cb = b;
  canon(ca);
  canon(cb);
  std::string d = diff(ca, cb);
  verdict(it->equal(x, y), it->equal(y, x), d.empty(), how + ", " + d);
  CHECK(it->equal(x, x), "reflexive", "an object is not equal to itself");
  it->free(x);
  it->free(y);
  osl_interface_free(it);
}
static std::string alter_list(Src& s, std::vector<T>& v, const GExt& g, const std::vector<std::string>& uris) {
  switch (s.below(5)) {
    case 0:
      shuffle(s, v);
      return "reordered";
    case 1:
      if (v.empty()) return "copy";
      v.erase(v.begin() + s.below((uint32_t)v.size()));
      return "one extension less";
    case 2: {
      std::string u = s.pick(uris);
      for (auto& e : v)
        if (e.name == u) return "copy";
      v.insert(v.begin() + s.below((uint32_t)v.size() + 1), gen_ext(s, u, g));
      return "one extension more";
    }
    default: {
      if (v.empty()) return "copy";
      T& t = v[s.below((uint32_t)v.size())];
      std::string r = mutate(s, t);
      if (s.flip()) shuffle(s, v);
      return r + " in " + t.name;
    }
  }
}
static void generics(Case& c) {
  GExt g = xoptions(c);
  std::vector<T> a = gen_exts(c.s, EXT_URIS, 5, g), b = a;
  for (auto& t : a)
    if (t.name == "textual" && t.k == T::NIL) discard();
  std::string how = "copy";
  if (c.s.pct(90)) how = alter_list(c.s, b, g, EXT_URIS);
  for (auto& t : b)
    if (t.name == "textual" && t.k == T::NIL) discard();
  c.nontrivial = how != "copy" && !a.empty();
  T ta = T::list("a"), tb = T::list("b");
  ta.c = a, tb.c = b;
  if (c.rendering) c.log << how << "\n" << show(ta) << show(tb);
  osl_generic_t *x = build_generics(a), *y = build_generics(b);
  std::vector<T> ca = a, cb = b;
  canon_list(ca);
  canon_list(cb);
  std::string d = diff(ca, cb);
  verdict(osl_generic_equal(x, y), osl_generic_equal(y, x), d.empty(), how + ", " + d);
  osl_generic_free(x);
  osl_generic_free(y);
}
static std::string alter(Src& s, MUnion& u, int prec, const GRel& g) {
  switch (s.below(6)) {
    case 0:
      if (u.size() < 2) return "copy";
      std::swap(u[s.below((uint32_t)u.size() - 1)], u.back());
      return "permuted";
    case 1:
      if (u.empty()) return "copy";
      u.erase(u.begin() + s.below((uint32_t)u.size()));
      return "one part less";
    case 2:
      u.insert(u.begin() + s.below((uint32_t)u.size() + 1), gen_any_rel(s, prec, g));
      return "one part more";
    default: {
      T t = T::rel("relation", u);
      std::string how = mutate(s, t);
      u = t.u;
      return how.empty() ? "copy" : how;
    }
  }
}
static void relation(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  g.wide = c.s.flip();
  MUnion a = gen_any_union(c.s, prec, g, 4), b = a;
  std::string how = "copy";
  if (c.s.pct(90)) how = alter(c.s, b, prec, g);
  if (c.s.pct(5)) {  // same values, another precision
    int p2 = ALLPREC[c.s.below(3)];
    if (all_fit(p2, b))
      for (auto& r : b) r.prec = p2;
  }
  c.nontrivial = how != "copy";
  if (c.rendering) c.log << how << "\n" << show(a) << "--\n" << show(b);
  osl_relation_t *x = build(a), *y = build(b);
  std::string d = diff(a, b);
  verdict(osl_relation_equal(x, y), osl_relation_equal(y, x), d.empty(), how + ", " + d);
  if (!a.empty() && !b.empty()) {
    std::string e = diff(a[0], b[0]);
    verdict(osl_relation_part_equal(x, y), osl_relation_part_equal(y, x), e.empty(), "first part, " + how + ", " + e);
  }
  osl_relation_free(x);
  osl_relation_free(y);
}
static T ltree(const std::vector<MUnion>& v) {
  T t = T::list("list");
  for (auto& u : v) t.c.push_back(T::rel("", u));
  return t;
}
static void lists(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  std::vector<MUnion> a;
  int n = c.s.small(5);
  for (int i = 0; i < n; i++) a.push_back(c.s.pct(8) ? MUnion{} : gen_any_union(c.s, prec, g, 3));
  std::vector<MUnion> b = a;
  std::string how = "copy";
  switch (c.s.below(6)) {
    case 0:
      break;
    case 1:
      how = "permuted";
      shuffle(c.s, b);
      break;
    case 2:
      how = "one more";
      b.insert(b.begin() + c.s.below(n + 1), gen_any_union(c.s, prec, g, 2));
      break;
    case 3:
      how = "one less";
      if (n) b.erase(b.begin() + c.s.below(n));
      break;
    default:
      if (n) how = alter(c.s, b[c.s.below(n)], prec, g);
  }
  c.nontrivial = n > 0 && how != "copy";
  if (c.rendering) c.log << how << "\n" << show(ltree(a)) << show(ltree(b));
  osl_relation_list_t *x = build_list(a), *y = build_list(b);
  std::string d = diff(ltree(a), ltree(b));
  verdict(osl_relation_list_equal(x, y), osl_relation_list_equal(y, x), d.empty(), how + ", " + d);
  osl_relation_list_free(x);
  osl_relation_list_free(y);
}
static std::string alter(Src& s, MStmt& m, const GScop& g) {
  GRel gr;
  switch (s.below(5)) {
    case 0:
      return "domain: " + alter(s, m.dom, g.e.prec, gr);
    case 1:
      return "scattering: " + alter(s, m.scat, g.e.prec, gr);
    case 2:
      if (s.flip() || m.acc.empty()) {
        if (s.flip() && !m.acc.empty())
          m.acc.erase(m.acc.begin() + s.below((uint32_t)m.acc.size()));
        else
          m.acc.push_back(gen_any_union(s, g.e.prec, gr, 2));
        return "number of accesses";
      }
      return "access: " + alter(s, m.acc[s.below((uint32_t)m.acc.size())], g.e.prec, gr);
    case 3:
      if (m.acc.size() > 1) std::swap(m.acc[0], m.acc[1 + s.below((uint32_t)m.acc.size() - 1)]);
      return "order of the accesses";
    default:
      return "extensions: " + alter_list(s, m.ext, g.e, EXT_URIS);
  }
}
static std::string alter(Src& s, std::vector<MStmt>& v, const GScop& g) {
  switch (s.below(v.empty() ? 1 : 5)) {
    case 0:
      v.insert(v.begin() + s.below((uint32_t)v.size() + 1), gen_stmt(s, g, s.small(2)));
      return "one statement more";
    case 1:
      v.erase(v.begin() + s.below((uint32_t)v.size()));
      return "one statement less";
    case 2:
      shuffle(s, v);
      return "order of the statements";
    default:
      return "statement: " + alter(s, v[s.below((uint32_t)v.size())], g);
  }
}
static GScop options(Case& c) {
  GScop g;
  g.e = xoptions(c);
  g.loose = c.s.pct(30);
  g.maxdepth = 2;
  return g;
}
static bool nil_textual(const std::vector<T>& v) {
  for (auto& t : v)
    if (t.name == "textual" && t.k == T::NIL) return true;
  return false;
}
static bool nil_textual(const std::vector<MStmt>& v) {
  for (auto& m : v)
    if (nil_textual(m.ext)) return true;
  return false;
}
static void statement(Case& c) {
  GScop g = options(c);
  std::vector<MStmt> a;
  int k = c.s.small(4), np = c.s.small(3);
  for (int i = 0; i < k; i++) a.push_back(gen_stmt(c.s, g, np));
  std::vector<MStmt> b = a;
  std::string how = "copy";
  if (c.s.pct(90)) how = alter(c.s, b, g);
  if (nil_textual(a) || nil_textual(b)) discard();
  c.nontrivial = how != "copy" && k > 0;
  if (c.rendering) c.log << how << "\n" << show(tree(a)) << show(tree(b));
  osl_statement_t *x = build(a), *y = build(b);
  std::vector<MStmt> ca = a, cb = b;
  canon(ca);
  canon(cb);
  std::string d = tdiff(ca, cb);
  verdict(osl_statement_equal(x, y), osl_statement_equal(y, x), d.empty(), how + ", " + d);
  osl_statement_free(x);
  osl_statement_free(y);
}
static void scop(Case& c) {
  GScop g = options(c);
  MScops a = gen_scops(c.s, g);
  if (g.e.nil && c.s.pct(5)) a[0].language = T::nil("language");
  if (g.e.nil && c.s.pct(5)) a[0].ctx.clear();
  MScops b = a;
  std::string how = "copy";
  if (c.s.pct(90)) {
    MScop& m = b[c.s.below((uint32_t)b.size())];
    GRel gr;
    switch (c.s.below(9)) {
      case 0:
        m.version++;
        how = "version";
        break;
      case 1:
        m.language = c.s.flip() ? T::nil("language") : T::str("language", m.language.s + "x");
        how = "language";
        break;
      case 2:
        how = "context: " + alter(c.s, m.ctx, g.e.prec, gr);
        break;
      case 3:
        how = "parameters: " + alter_list(c.s, m.params, g.e, EXT_URIS);
        break;
      case 4:
        how = "extensions: " + alter_list(c.s, m.ext, g.e, EXT_URIS);
        break;
      case 5:
        if (c.s.flip() && b.size() > 1)
          b.erase(b.begin() + c.s.below((uint32_t)b.size()));
        else
          b.insert(b.begin() + c.s.below((uint32_t)b.size() + 1), gen_scop(c.s, g));
        how = "number of scops";
        break;
      case 6:
        shuffle(c.s, b);
        how = "order of the scops";
        break;
      default:
        how = alter(c.s, m.stmts, g);
    }
  }
  for (auto* v : {&a, &b})
    for (auto& m : *v)
      if (nil_textual(m.ext) || nil_textual(m.params) || nil_textual(m.stmts)) discard();
  c.nontrivial = how != "copy";
  if (c.rendering) c.log << how << "\n" << show(tree(a)) << show(tree(b));
  osl_scop_t *x = build(a), *y = build(b);
  MScops ca = a, cb = b;
  canon(ca);
  canon(cb);
  std::string d = tdiff(ca, cb);
  verdict(osl_scop_equal(x, y), osl_scop_equal(y, x), d.empty(), how + ", " + d);
  osl_scop_free(x);
  osl_scop_free(y);
}
static void others(Case& c) {
  switch (c.s.below(3)) {
    case 0: {
      label("strings");
      T a = gen_strings(c.s, "strings", 0, 6, false, c.s.pct(10)), b = a;
      switch (c.s.below(6)) {
        case 0:
          break;
        case 1:
          shuffle(c.s, b.c);
          break;
        case 2:
          b = T::nil("strings");
          break;
        default:
          mutate(c.s, b);
      }
      if (c.s.pct(3)) a = T::nil("strings");
      c.nontrivial = a.size() > 1;
      if (c.rendering) c.log << show(a) << show(b);
      osl_strings_t *x = build_strings(a), *y = build_strings(b);
      std::string d = diff(a, b);
      verdict(osl_strings_equal(x, y), osl_strings_equal(y, x), d.empty(), d);
      osl_strings_free(x);
      osl_strings_free(y);
      break;
    }
    case 1: {
      label("vector");
      int prec = ALLPREC[c.s.below(3)], p2 = c.s.pct(90) ? prec : ALLPREC[c.s.below(3)];
      int n = c.s.small(6), m = c.s.pct(85) ? n : c.s.small(6);
      std::vector<Z> a, b;
      for (int i = 0; i < n; i++) a.push_back(gen_coef(c.s, prec, c.s.flip()));
      for (int i = 0; i < m; i++) b.push_back(i < n && fits_prec(p2, a[i]) ? a[i] : Z(0));
      if (m && c.s.pct(60)) {
        int i = c.s.below(m);
        b[i] = c.s.flip() ? gen_coef(c.s, p2, true) : b[i] == 0 ? Z(1) : b[i] - 1;
        if (!fits_prec(p2, b[i])) b[i] = 0;
      }
      c.nontrivial = n > 0;
      auto mk = [](int pr, const std::vector<Z>& v) {
        osl_vector_t* x = osl_vector_pmalloc(pr, v.size());
        for (size_t i = 0; i < v.size(); i++) putZ(pr, &x->v[i], v[i]);
        return x;
      };
      if (c.rendering) {
        c.log << precname(prec);
        for (auto& z : a) c.log << " " << z;
        c.log << "\n" << precname(p2);
        for (auto& z : b) c.log << " " << z;
      }
      osl_vector_t *x = mk(prec, a), *y = mk(p2, b);
      verdict(osl_vector_equal(x, y), osl_vector_equal(y, x), prec == p2 && a == b, "vectors");
      CHECK(!osl_vector_equal(x, NULL) && !osl_vector_equal(NULL, x) && osl_vector_equal(NULL, NULL), "absent",
            "comparison with an absent vector");
      osl_vector_free(x);
      osl_vector_free(y);
      break;
    }
    default: {
      label("interface");
      std::string u = c.s.pick(EXT_URIS), w = c.s.pick(EXT_URIS);
      if (c.s.flip()) w = u;
      osl_interface_t *x = ext_interface(u), *y = ext_interface(w);
      int k = -1;
      if (c.s.flip()) {
        k = c.s.below(6);
        osl_interface_t* z = ext_interface(u == "body" ? "arrays" : "body");
        if (k == 0) y->sprint = z->sprint;
        if (k == 1) y->sread = z->sread;
        if (k == 2) y->free = z->free;
        if (k == 3) y->clone = z->clone;
        if (k == 4) y->equal = z->equal;
        if (k == 5) y->idump = z->idump;
        osl_interface_free(z);
      }
      if (k >= 0 && u != w) discard();
      c.nontrivial = k >= 0 || u != w;
      if (c.rendering) c.log << u << " " << w << " altered function " << k;
      verdict(osl_interface_equal(x, y), osl_interface_equal(y, x), u == w && k < 0, "interfaces");
      osl_interface_free(x);
      osl_interface_free(y);
    }
  }
}
Property pbt::property = {
    "P06",
    "two objects that differ somewhere (or in the order of their elements only) are compared",
    {{"extension", extension, 120000, 3000000, true},
     {"generics", generics, 30000, 900000, true},
     {"relation", relation, 60000, 1500000, true},
     {"lists", lists, 20000, 600000, true},
     {"statement", statement, 30000, 900000, true},
     {"scop", scop, 30000, 900000, true},
     {"others", others, 40000, 1000000, true}},
};
